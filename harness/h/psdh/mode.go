package psdh

import (
	"github.com/oov/psd"
	"verif/harness/sym"
)

// From Adobe's document (keys) and the compositing specification (names).
var modeNames = []struct {
	key, name string
	c         psd.BlendMode
}{
	{"pass", "pass-through", psd.BlendModePassThrough}, {"norm", "normal", psd.BlendModeNormal},
	{"diss", "dissolve", psd.BlendModeDissolve}, {"dark", "darken", psd.BlendModeDarken},
	{"mul ", "multiply", psd.BlendModeMultiply}, {"idiv", "color-burn", psd.BlendModeColorBurn},
	{"lbrn", "linear-burn", psd.BlendModeLinearBurn}, {"dkCl", "darker-color", psd.BlendModeDarkerColor},
	{"lite", "lighten", psd.BlendModeLighten}, {"scrn", "screen", psd.BlendModeScreen},
	{"div ", "color-dodge", psd.BlendModeColorDodge}, {"lddg", "linear-dodge", psd.BlendModeLinearDodge},
	{"lgCl", "lighter-color", psd.BlendModeLighterColor}, {"over", "overlay", psd.BlendModeOverlay},
	{"sLit", "soft-light", psd.BlendModeSoftLight}, {"hLit", "hard-light", psd.BlendModeHardLight},
	{"vLit", "vivid-light", psd.BlendModeVividLight}, {"lLit", "linear-light", psd.BlendModeLinearLight},
	{"pLit", "pin-light", psd.BlendModePinLight}, {"hMix", "hard-mix", psd.BlendModeHardMix},
	{"diff", "difference", psd.BlendModeDifference}, {"smud", "exclusion", psd.BlendModeExclusion},
	{"fsub", "subtract", psd.BlendModeSubtract}, {"fdiv", "divide", psd.BlendModeDivide},
	{"hue ", "hue", psd.BlendModeHue}, {"sat ", "saturation", psd.BlendModeSaturation},
	{"colr", "color", psd.BlendModeColor}, {"lum ", "luminosity", psd.BlendModeLuminosity},
}

func refName(k []byte) string {
	for _, m := range modeNames {
		if sym.Eq(k, []byte(m.key)) {
			return m.name
		}
	}
	return "unknown-blend-name-" + string(k)
}

// ModeNames: any four-byte key has exactly its documented name.
func ModeNames() {
	k := sym.Bytes("key", 4)
	got := psd.BlendMode(k).String()
	want := refName(k)
	sym.Reach("named")
	sym.Assert(len(got) == len(want), "blend mode name length")
	sym.Assert(sym.StrEq(got, want), "blend mode name")
	for _, m := range modeNames {
		sym.Assert(string(m.c) == m.key, "blend mode constant")
	}
}

// ModeNamesDistinct: two different keys never share a name.
func ModeNamesDistinct() {
	a, b := sym.Bytes("a", 4), sym.Bytes("b", 4)
	sym.Assume(!sym.Eq(a, b))
	x, y := psd.BlendMode(a).String(), psd.BlendMode(b).String()
	sym.Reach("named")
	if len(x) == len(y) {
		sym.Assert(!sym.StrEq(x, y), "different keys have different names")
	}
}

// ModeKeys: the keys of a layer record and of its section divider are reported unchanged.
func ModeKeys() {
	d := gray1x1(sym.Choose("psb", 0, 1) == 1)
	k, s := sym.Bytes("key", 4), sym.Bytes("divider", 4)
	data := append(append(p32(nil, 1), "8BIM"...), s...)
	sub := int(sym.U32("sub"))
	if sym.Choose("sub", 0, 1) == 1 {
		data = p32(data, sub)
	} else {
		sub = 0
	}
	key := "lsct"
	if sym.Choose("lsdk", 0, 1) == 1 {
		key = "lsdk"
	}
	d.layers = []lay{
		{blocks: []blk{lsct("lsct", 3)}},
		{mode: k, blocks: []blk{{key: []byte(key), data: data}}},
	}
	p := ok(d.bytes(), &psd.DecodeOptions{SkipLayerImage: true})
	sym.Reach("decoded")
	sym.Assert(len(p.Layer) == 1, "one folder")
	l := &p.Layer[0]
	sym.Assert(sym.StrEq(string(l.BlendMode), string(k)), "blend mode key of the layer")
	sym.Assert(sym.StrEq(string(l.SectionDividerSetting.BlendMode), string(s)), "blend mode key of the divider")
	sym.Assert(l.SectionDividerSetting.Type == 1 && l.SectionDividerSetting.SubType == sub, "divider type")
}
