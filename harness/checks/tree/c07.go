package tree

import (
	"bytes"
	"fmt"
	"strings"
	"unicode/utf8"

	"aqwari.net/xml/verif/prop"
	"aqwari.net/xml/verif/xmodel"
	"aqwari.net/xml/xmltree"
	"golang.org/x/net/html/charset"
	"pgregory.net/rapid"
)

// charsets and characters that each can represent.
var charsets = []struct {
	label string
	chars []string
}{
	{"iso-8859-1", []string{"é", "ü", "ß", "ÿ", "café"}},
	{"ISO-8859-1", []string{"é", "Ñ", "§"}},
	{"latin1", []string{"é", "æ"}},
	{"us-ascii", nil},
	{"windows-1252", []string{"€", "“q”", "é", "…"}},
	{"iso-8859-2", []string{"ł", "ő", "Ž"}},
	{"iso-8859-5", []string{"Ж", "я", "№"}},
	{"iso-8859-7", []string{"Ω", "λόγος"}},
	{"iso-8859-15", []string{"€", "œ"}},
	{"windows-1251", []string{"Ж", "привет"}},
	{"koi8-r", []string{"я", "привет"}},
	{"macintosh", []string{"é", "∞"}},
	{"shift_jis", []string{"日本", "ｱ", "テスト"}},
	{"euc-jp", []string{"日本", "テスト"}},
	{"iso-2022-jp", []string{"日本", "テスト"}},
	{"gbk", []string{"中文", "字"}},
	{"gb18030", []string{"中文", "😀"}},
	{"big5", []string{"中文", "字"}},
	{"euc-kr", []string{"한국", "어"}},
	{"utf-8", []string{"é", "日本", "😀"}},
	{"UTF-8", []string{"é", "日本", "😀"}},
}

type charsetCase struct {
	Charset int
	Quote   string
	Extra   string // after the encoding in the declaration
	Sep     string // directly after the declaration
	Pad     int    // bytes of extra text
	PadAt   bool   // before the root (comment) or inside
	Spare   int    // spare capacity of the caller's slice
	Doc     xmodel.Doc
}

func genCharset(t *rapid.T) charsetCase {
	c := charsetCase{Charset: prop.Int(t, len(charsets))}
	cs := charsets[c.Charset]
	c.Quote = prop.Pick(t, `"`, `'`)
	c.Extra = prop.Pick(t, "", "", " ", ` standalone="yes"`)
	c.Sep = prop.Pick(t, "\n", "", "", " ", "\r\n", "\n\n", "<!--x-->", "<?pi?>")
	c.Spare = prop.Pick(t, 0, 0, 1, 64, 100000)
	if prop.Chance(t, 4) {
		c.Pad = prop.Pick(t, 10, 500, 2040, 4000, 4096, 5000, 8200, 20000, 70000)
		c.PadAt = prop.Chance(t, 8)
	}
	c.Doc = xmodel.Gen(t, xmodel.Style{ASCII: true, Alphabet: append([]string{}, cs.chars...), MaxNodes: 10})
	c.Doc.Decl = ""
	for len(c.Doc.Prolog) > 0 {
		c.Doc.Prolog = c.Doc.Prolog[1:]
	}
	return c
}

// build gives the document in UTF-8 (without the declaration's encoding) and
// in its own encoding.
func (c charsetCase) build() (x *xmodel.Rendered, encoded []byte, err error) {
	cs := charsets[c.Charset]
	d := c.Doc
	pad := ""
	if c.Pad > 0 {
		unit := "word "
		if len(cs.chars) > 0 {
			unit += cs.chars[0] + " "
		}
		pad = strings.Repeat(unit, c.Pad/len(unit)+1)
	}
	if c.Pad > 0 && !c.PadAt {
		d.Prolog = append([]xmodel.Item{{Kind: xmodel.Comment, Text: pad}}, d.Prolog...)
	}
	if c.Sep != "" {
		d.Prolog = append([]xmodel.Item{{Kind: xmodel.Other, Raw: c.Sep}}, d.Prolog...)
	}
	if c.Pad > 0 && c.PadAt {
		root := *d.Root
		root.SelfClose = false
		kid := &xmodel.Node{Local: "pad", Attrs: []xmodel.Attr{{Local: "w", Value: pad[:50%len(pad)], Raw: pad[:50%len(pad)]}}, Items: []xmodel.Item{{Kind: xmodel.Text, Text: pad, Raw: pad}}}
		if !utf8.ValidString(kid.Attrs[0].Value) {
			kid.Attrs = nil
		}
		root.Items = append([]xmodel.Item{{Kind: xmodel.Elem, Node: kid}}, root.Items...)
		d.Root = &root
	}
	d.Decl = "<?xml version=" + c.Quote + "1.0" + c.Quote + " encoding=" + c.Quote + cs.label + c.Quote + c.Extra + "?>"
	x = d.Render()
	enc, _ := charset.Lookup(cs.label)
	if enc == nil {
		return nil, nil, fmt.Errorf("unknown charset %s", cs.label)
	}
	encoded, err = enc.NewEncoder().Bytes(x.Src)
	return x, encoded, err
}

func checkCharset(c charsetCase, r *prop.Rec) error {
	x, encoded, err := c.build()
	if err != nil {
		return prop.Infra("encoding: %v", err)
	}
	in := make([]byte, len(encoded), len(encoded)+c.Spare)
	copy(in, encoded)
	guard := in[:cap(in)]
	for i := len(in); i < len(guard); i++ {
		guard[i] = 0xA5
	}
	root, err := xmltree.Parse(in)
	where := func(err error) error {
		s := string(x.Src)
		if len(s) > 600 {
			s = s[:600] + "..."
		}
		return fmt.Errorf("%v\nin the %s encoding of\n%s", err, charsets[c.Charset].label, s)
	}
	if err != nil {
		return where(fmt.Errorf("Parse: %v", err))
	}
	if !bytes.Equal(in, encoded) {
		return where(fmt.Errorf("Parse modified the caller's bytes: %.60q", in))
	}
	for i := len(in); i < len(guard); i++ {
		if guard[i] != 0xA5 {
			return where(fmt.Errorf("Parse wrote past the end of the caller's slice"))
		}
	}
	if err := match(x.Root, root, true); err != nil {
		return where(err)
	}
	twin, err := xmltree.Parse(append([]byte(nil), x.Src[x.RootStart:]...))
	if err != nil {
		return where(err)
	}
	if !xmltree.Equal(root, twin) || !xmltree.Equal(twin, root) {
		return where(fmt.Errorf("not Equal to the parse of the same document in UTF-8"))
	}
	out := xmltree.Marshal(root)
	if !utf8.Valid(out) {
		return where(fmt.Errorf("output is not UTF-8: %.200q", out))
	}
	if err := checkOutput(x.Root, out); err != nil {
		return where(err)
	}
	r.Label(strings.ToLower(charsets[c.Charset].label))
	r.LabelIf(len(encoded) > 4096, "over-4096-bytes")
	r.LabelIf(c.Sep == "", "nothing-after-declaration")
	r.Nontrivial(!bytes.Equal(encoded, x.Src))
	return nil
}

type badCharset struct {
	Label, Sep string
	Doc        xmodel.Doc
}

func init() {
	prop.Register("C07", "charset",
		"random documents over the characters of 21 charset labels, separators after the declaration, sizes up to 70 kB; non-trivial: the encoded bytes differ from UTF-8",
		genCharset, checkCharset, prop.Counts(10000, 150000))
	prop.Register("C07", "unknown",
		"documents declaring an encoding nobody knows; an error is required and the input stays as it is",
		func(t *rapid.T) badCharset {
			return badCharset{prop.Pick(t, "klingon", "utf-9", "x-none", "iso-8859-99", "1252", "é"), prop.Pick(t, "", "\n", " "), xmodel.Gen(t, xmodel.Style{ASCII: true, MaxNodes: 5})}
		},
		func(c badCharset, r *prop.Rec) error {
			c.Doc.Decl = `<?xml version="1.0" encoding="` + c.Label + `"?>` + c.Sep
			x := c.Doc.Render()
			in := append([]byte(nil), x.Src...)
			root, err := xmltree.Parse(in)
			if err == nil {
				return fmt.Errorf("no error for\n%s\n(root %s)", x.Src, root.Name.Local)
			}
			if !bytes.Equal(in, x.Src) {
				return fmt.Errorf("Parse modified the caller's bytes")
			}
			r.Nontrivial(true)
			return nil
		}, prop.Counts(500, 5000))
}
