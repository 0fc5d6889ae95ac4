package genc

import (
	"fmt"
	"go/types"
	"reflect"
	"sort"
	"strings"

	"aqwari.net/xml/verif/prop"
	"aqwari.net/xml/verif/smodel"
	"pgregory.net/rapid"
)

// A bundledCase refers to schemas that come with the package.
type bundledCase struct {
	Std      smodel.StdCase
	Defaults bool
}

func genBundled(t *rapid.T) bundledCase {
	return bundledCase{smodel.GenStd(t), prop.Chance(t, 8)}
}

func checkBundled(c bundledCase, r *prop.Rec) error {
	doc := c.Std.Doc()
	_, src, err := source(Options{Defaults: c.Defaults}.config(), [][]byte{doc})
	if err != nil {
		return fmt.Errorf("%v\n%s", err, doc)
	}
	if err := c.judge(src); err != nil {
		return fmt.Errorf("%v\n%s\n--- generated\n%s", err, doc, src)
	}
	r.Nontrivial(len(c.Std.Uses)+len(c.Std.Elems) > 1)
	r.LabelIf(c.Defaults, "default options")
	r.Label("in a " + c.Std.Where)
	return nil
}

func (c bundledCase) judge(src []byte) error {
	_, pkg, err := compile(src)
	if err != nil {
		return err
	}
	if err := formatted(src); err != nil {
		return err
	}
	o := pkg.Scope().Lookup("T")
	if o == nil {
		return fmt.Errorf("no type T")
	}
	st, ok := o.Type().Underlying().(*types.Struct)
	if !ok {
		return fmt.Errorf("type T is %v", o.Type().Underlying())
	}
	var got []string
	for i := 0; i < st.NumFields(); i++ {
		tag := reflect.StructTag(st.Tag(i)).Get("xml")
		if !st.Field(i).Exported() {
			return fmt.Errorf("field %s is not exported", st.Field(i).Name())
		}
		_, slice := st.Field(i).Type().Underlying().(*types.Slice)
		if strings.Contains(tag, ",attr") {
			if slice {
				return fmt.Errorf("field %s is a slice", st.Field(i).Name())
			}
			// (K02: without a namespace, unless two have the same local name)
			if i := strings.LastIndex(tag, " "); i >= 0 {
				tag = tag[i+1:]
			}
		} else {
			i := strings.Index(tag, " ")
			tag = strings.TrimSuffix(tag[i+1:], ",omitempty")
			if slice == c.Std.Order && !strings.Contains(strings.ToLower(tag), "binary") {
				// (lists and binary data are slices anyway)
				if !slice || !strings.HasSuffix(tag, "S") && tag != "NMTOKENS" {
					return fmt.Errorf("field for element %s: slice is %v", tag, slice)
				}
			}
		}
		got = append(got, tag)
	}
	var want []string
	for _, w := range c.Std.Wants() {
		if c.Defaults && (w.Name == "id" || w.Name == "href" || w.Name == "offset") {
			continue // ignored by default
		}
		tag := w.Name + ",attr"
		if !w.Required {
			tag += ",omitempty"
		}
		want = append(want, tag)
	}
	want = append(want, c.Std.Elems...)
	sort.Strings(got)
	sort.Strings(want)
	if !reflect.DeepEqual(got, want) && len(got)+len(want) > 0 {
		return fmt.Errorf("type T has fields for %q, want %q", got, want)
	}
	return nil
}

func init() {
	prop.Register("C17", "bundled schemas", "more than one reference to a bundled schema", genBundled, checkBundled, prop.Counts(400, 8000))
}
