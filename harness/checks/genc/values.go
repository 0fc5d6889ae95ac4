package genc

import (
	"encoding/base64"
	"encoding/hex"
	"fmt"
	"math"
	"regexp"
	"strconv"
	"strings"

	"aqwari.net/xml/verif/smodel"
)

var (
	zoneRe = regexp.MustCompile(`(Z|[+-]\d\d:\d\d)$`)
	timeRe = map[string]*regexp.Regexp{
		"dateTime":   regexp.MustCompile(`^(\d{4})-(\d\d)-(\d\d)T(\d\d):(\d\d):(\d\d)(\.\d+)?$`),
		"date":       regexp.MustCompile(`^(\d{4})-(\d\d)-(\d\d)$`),
		"time":       regexp.MustCompile(`^(\d\d):(\d\d):(\d\d)(\.\d+)?$`),
		"gYearMonth": regexp.MustCompile(`^(\d{4})-(\d\d)$`),
		"gYear":      regexp.MustCompile(`^(\d{4})$`),
		"gMonthDay":  regexp.MustCompile(`^--(\d\d)-(\d\d)$`),
		"gDay":       regexp.MustCompile(`^---(\d\d)$`),
		"gMonth":     regexp.MustCompile(`^--(\d\d)$`),
	}
)

// canonical gives the value a text denotes, in a form that can be compared.
// Times without a zone are read as UTC.
func canonical(kind, text string) (string, error) {
	s := strings.Join(strings.Fields(text), " ")
	if strings.HasPrefix(kind, "list ") {
		var out []string
		for _, w := range strings.Fields(text) {
			c, err := canonical(strings.TrimPrefix(kind, "list "), w)
			if err != nil {
				return "", err
			}
			out = append(out, c)
		}
		return "[" + strings.Join(out, " ") + "]", nil
	}
	if re := timeRe[kind]; re != nil {
		zone := zoneRe.FindString(s)
		body := strings.TrimSuffix(s, zone)
		if zone == "" || zone == "+00:00" || zone == "-00:00" {
			zone = "Z"
		}
		m := re.FindStringSubmatch(body)
		if m == nil {
			return "", fmt.Errorf("%q is no %s", text, kind)
		}
		if strings.Contains(body, ".") {
			body = strings.TrimRight(strings.TrimRight(body, "0"), ".")
		}
		return body + zone, nil
	}
	switch smodel.Family(kind) {
	case "decimal":
		if smodel.IsInt(kind) {
			return bigInt(strings.TrimPrefix(s, "+"))
		}
		f, err := strconv.ParseFloat(s, 64)
		return strconv.FormatFloat(f, 'g', -1, 64), err
	case "float":
		bits := 64
		if kind == "float" {
			bits = 32
		}
		f, err := strconv.ParseFloat(s, bits)
		if math.IsNaN(f) {
			return "NaN", err
		}
		return strconv.FormatFloat(f, 'g', -1, bits), err
	case "boolean":
		switch s {
		case "1", "true":
			return "true", nil
		case "0", "false":
			return "false", nil
		}
		return "", fmt.Errorf("%q is no boolean", text)
	case "binary":
		if kind == "hexBinary" {
			b, err := hex.DecodeString(s)
			return "x" + hex.EncodeToString(b), err
		}
		b, err := base64.StdEncoding.DecodeString(strings.ReplaceAll(s, " ", ""))
		return "x" + hex.EncodeToString(b), err
	}
	switch kind {
	case "string", "normalizedString", "union", "anyType", "anySimpleType", "any":
		return text, nil
	}
	return s, nil
}

// sameValue says whether two texts denote the same value.
func sameValue(kind, want, got string) error {
	a, err := canonical(kind, want)
	if err != nil {
		panic(fmt.Sprintf("value %q of %s: %v", want, kind, err))
	}
	b, err := canonical(kind, got)
	if err != nil {
		return fmt.Errorf("%s %q became %q: %v", kind, want, got, err)
	}
	if a != b {
		return fmt.Errorf("%s %q became %q", kind, want, got)
	}
	return nil
}

// goValue is how the driver shows the Go value for a text.
func goValue(kind, text string) interface{} {
	if strings.HasPrefix(kind, "list ") {
		out := []interface{}{}
		for _, w := range strings.Fields(text) {
			out = append(out, goValue(strings.TrimPrefix(kind, "list "), w))
		}
		return out
	}
	c, err := canonical(kind, text)
	if err != nil {
		panic(err)
	}
	if timeRe[kind] != nil {
		zone := zoneRe.FindString(c)
		body := strings.TrimSuffix(c, zone)
		switch kind {
		case "date":
			body += "T00:00:00"
		case "time":
			body = "0000-01-01T" + body
		case "gYearMonth":
			body += "-01T00:00:00"
		case "gYear":
			body += "-01-01T00:00:00"
		case "gMonthDay":
			body = "0000" + body[1:] + "T00:00:00"
		case "gDay":
			body = "0000-01" + body[2:] + "T00:00:00"
		case "gMonth":
			body = "0000" + body[1:] + "-01T00:00:00"
		}
		return body + zone
	}
	if kind == "boolean" {
		return c == "true"
	}
	return c
}
