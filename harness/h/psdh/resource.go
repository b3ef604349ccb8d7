package psdh

import (
	"github.com/oov/psd"
	"verif/harness/sym"
)

// Resources: n resource blocks with symbolic signature, id, name and data.
func Resources() {
	n := sym.Choose("n", 1, sym.Param("n", 2))
	max := sym.Param("len", 3)
	d := gray1x1(false)
	var anySig bool // a block that has none of the known signatures
	for i := 0; i < n; i++ {
		r := rsc{id: int(sym.U16("id"))}
		r.name = sym.Bytes("name", sym.Choose("namelen", 0, max))
		r.data = sym.Bytes("data", sym.Choose("datalen", 0, max))
		if i == 0 {
			r.sig = sym.Bytes("sig", 4)
			known := false
			for _, s := range []string{"8BIM", "MeSa", "PHUT", "AgHg", "DCSR"} {
				known = sym.Or(known, sym.Eq(r.sig, []byte(s)))
			}
			anySig = !known
		}
		d.res = append(d.res, r)
	}
	b := d.config()
	c := &counter{b: append(append([]byte(nil), b...), 1, 2, 3)}
	cfg, read, err := psd.DecodeConfig(c)
	if err != nil {
		sym.Reach("rejected")
		sym.Assert(anySig, "a block with a known signature is accepted")
		return
	}
	sym.Reach("accepted")
	sym.Assert(!anySig, "a block with an unknown signature is rejected")
	sym.Assert(read == len(b) && c.pos == len(b), "byte count of the configuration")
	distinct := 0
	for i, r := range d.res {
		last := true
		for _, q := range d.res[i+1:] {
			if q.id == r.id {
				last = false
			}
		}
		if !last {
			continue
		}
		distinct++
		g, found := cfg.Res[r.id]
		sym.Assert(found, "the resource is present")
		sym.Assert(len(g.Name) == len(r.name) && sym.StrEq(g.Name, string(r.name)), "resource name")
		sym.Assert(len(g.Data) == len(r.data) && sym.Eq(g.Data, r.data), "resource data")
	}
	sym.Assert(len(cfg.Res) == distinct, "number of resources")
}

// ResourceLong: one resource with long name and data, followed by another.
func ResourceLong() {
	nl := []int{254, 255, 128, 127}[sym.Choose("namelen", 0, 3)]
	dl := []int{255, 256, 257, 300}[sym.Choose("datalen", 0, 3)]
	d := gray1x1(sym.Choose("psb", 0, 1) == 1)
	d.res = []rsc{{id: 1000, name: sym.Bytes("name", nl), data: sym.Bytes("data", dl)}, {id: 1001, name: sym.Bytes("name", 1), data: sym.Bytes("data", 2)}}
	b := d.config()
	c := &counter{b: append(append([]byte(nil), b...), 1, 2, 3)}
	cfg, read, err := psd.DecodeConfig(c)
	sym.Reach("decoded")
	sym.Assert(err == nil && read == len(b) && c.pos == len(b), "byte count of the configuration")
	sym.Assert(len(cfg.Res) == 2, "number of resources")
	for _, r := range d.res {
		g := cfg.Res[r.id]
		sym.Assert(len(g.Name) == len(r.name) && sym.StrEq(g.Name, string(r.name)), "resource name")
		sym.Assert(len(g.Data) == len(r.data) && sym.Eq(g.Data, r.data), "resource data")
	}
}
