package comph

// A document is built from a concrete structure (which sections, how many
// blocks, their sizes) and contents that are symbolic bytes. The writer below
// follows Adobe's file format document.

func p16(b []byte, v int) []byte { return append(b, byte(v>>8), byte(v)) }
func p32(b []byte, v int) []byte { return append(b, byte(v>>24), byte(v>>16), byte(v>>8), byte(v)) }
func p64(b []byte, v int) []byte { return p32(p32(b, v>>32), v) }

type blk struct {
	sig  string
	key  []byte
	len8 bool
	data []byte
	pad  []byte
}

type chn struct {
	id     int
	method int
	data   []byte // after the compression method
}

type lay struct {
	rect    [4]int // top left bottom right
	chans   []chn
	sig     []byte
	mode    []byte
	opacity byte
	clip    byte
	flags   byte
	mask    []byte
	ranges  []byte
	name    []byte
	blocks  []blk
	noExtra bool
}

type rsc struct {
	sig  []byte
	id   int
	name []byte
	data []byte
}

type doc struct {
	psb         bool
	ch, w, h    int
	depth, mode int
	cmd         []byte
	res         []rsc
	layers      []lay
	neg         bool
	info        bool // a layer info section even without layers
	infoPad     int
	global      []byte
	hasGlobal   bool
	blocks      []blk
	secPad      int
	cor         *corrupt
	method      int
	merged      []byte
}

func (d *doc) lenN(b []byte, v int) []byte {
	if d.psb {
		return d.plen(b, v, 8)
	}
	return d.plen(b, v, 4)
}

// corrupt replaces the length field number at.
type corrupt struct {
	n, at int
	val   func(v, size int) []byte
}

// plen writes a length field.
func (d *doc) plen(b []byte, v, size int) []byte {
	if d.cor != nil {
		i := d.cor.n
		d.cor.n++
		if i == d.cor.at {
			return append(b, d.cor.val(v, size)...)
		}
	}
	for i := size - 1; i >= 0; i-- {
		b = append(b, byte(v>>(8*uint(i))))
	}
	return b
}

func (d *doc) blockBytes(bs []blk) []byte {
	var b []byte
	for _, k := range bs {
		s := k.sig
		if s == "" {
			s = "8BIM"
		}
		b = append(b, s...)
		b = append(b, k.key...)
		if k.len8 {
			b = d.plen(b, len(k.data), 8)
		} else {
			b = d.plen(b, len(k.data), 4)
		}
		b = append(b, k.data...)
		b = append(b, k.pad...)
	}
	return b
}

func (d *doc) extra(l *lay) []byte {
	if l.noExtra {
		return d.plen(nil, 0, 4)
	}
	var x []byte
	x = d.plen(x, len(l.mask), 4)
	x = append(x, l.mask...)
	x = d.plen(x, len(l.ranges), 4)
	x = append(x, l.ranges...)
	x = d.plen(x, len(l.name), 1)
	x = append(x, l.name...)
	for n := len(l.name) + 1; n&3 != 0; n++ {
		x = append(x, 0)
	}
	x = append(x, d.blockBytes(l.blocks)...)
	return append(d.plen(nil, len(x), 4), x...)
}

// layerInfo is the layer info section without its length.
func (d *doc) layerInfo() []byte {
	var b []byte
	n := len(d.layers)
	if d.neg {
		n = -n
	}
	b = d.plen(b, n, 2)
	for i := range d.layers {
		l := &d.layers[i]
		for _, v := range l.rect {
			b = p32(b, v)
		}
		b = d.plen(b, len(l.chans), 2)
		for _, c := range l.chans {
			b = p16(b, c.id)
			b = d.lenN(b, 2+len(c.data))
		}
		if l.sig != nil {
			b = append(b, l.sig...)
		} else {
			b = append(b, "8BIM"...)
		}
		if l.mode != nil {
			b = append(b, l.mode...)
		} else {
			b = append(b, "norm"...)
		}
		b = append(b, l.opacity, l.clip, l.flags, 0)
		b = append(b, d.extra(l)...)
	}
	for i := range d.layers {
		for _, c := range d.layers[i].chans {
			b = p16(b, c.method)
			b = append(b, c.data...)
		}
	}
	for i := 0; i < d.infoPad; i++ {
		b = append(b, 0)
	}
	return b
}

func (d *doc) config() []byte {
	v := 1
	if d.psb {
		v = 2
	}
	b := []byte("8BPS")
	b = p16(b, v)
	b = append(b, 0, 0, 0, 0, 0, 0)
	b = p16(b, d.ch)
	b = p32(b, d.h)
	b = p32(b, d.w)
	b = p16(b, d.depth)
	b = p16(b, d.mode)
	b = d.plen(b, len(d.cmd), 4)
	b = append(b, d.cmd...)
	var r []byte
	for _, x := range d.res {
		if x.sig != nil {
			r = append(r, x.sig...)
		} else {
			r = append(r, "8BIM"...)
		}
		r = p16(r, x.id)
		r = d.plen(r, len(x.name), 1)
		r = append(r, x.name...)
		if len(x.name)&1 == 0 {
			r = append(r, 0)
		}
		r = d.plen(r, len(x.data), 4)
		r = append(r, x.data...)
		if len(x.data)&1 != 0 {
			r = append(r, 0)
		}
	}
	b = d.plen(b, len(r), 4)
	return append(b, r...)
}

func (d *doc) layerSection() []byte {
	var s []byte
	if len(d.layers) != 0 || d.info {
		li := d.layerInfo()
		s = d.lenN(s, len(li))
		s = append(s, li...)
	} else if d.hasGlobal || len(d.blocks) != 0 {
		s = d.lenN(s, 0)
	}
	if d.hasGlobal || len(d.blocks) != 0 {
		s = d.plen(s, len(d.global), 4)
		s = append(s, d.global...)
		s = append(s, d.blockBytes(d.blocks)...)
	}
	for i := 0; i < d.secPad; i++ {
		s = append(s, 0)
	}
	return append(d.lenN(nil, len(s)), s...)
}

func (d *doc) bytes() []byte {
	b := d.config()
	b = append(b, d.layerSection()...)
	b = p16(b, d.method)
	return append(b, d.merged...)
}

// plane is the number of bytes of one channel.
func plane(w, h, depth int) int { return (w*depth + 7) >> 3 * h }
