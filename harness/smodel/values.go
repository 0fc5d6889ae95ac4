package smodel

import (
	"encoding/base64"
	"fmt"
	"strings"

	"aqwari.net/xml/verif/prop"
	"pgregory.net/rapid"
)

// Builtins are the local names of the built-in types of XML Schema 1.0.
var Builtins = []string{
	"anyType", "anySimpleType", "string", "boolean", "decimal", "float", "double", "duration", "dateTime", "time",
	"date", "gYearMonth", "gYear", "gMonthDay", "gDay", "gMonth", "hexBinary", "base64Binary", "anyURI", "QName",
	"NOTATION", "normalizedString", "token", "language", "NMTOKEN", "NMTOKENS", "Name", "NCName", "ID", "IDREF",
	"IDREFS", "ENTITY", "ENTITIES", "integer", "nonPositiveInteger", "negativeInteger", "long", "int", "short", "byte",
	"nonNegativeInteger", "unsignedLong", "unsignedInt", "unsignedShort", "unsignedByte", "positiveInteger",
}

// Family groups built-ins by the facets and values they share.
func Family(b string) string {
	switch b {
	case "decimal", "integer", "nonPositiveInteger", "negativeInteger", "long", "int", "short", "byte", "nonNegativeInteger",
		"unsignedLong", "unsignedInt", "unsignedShort", "unsignedByte", "positiveInteger":
		return "decimal"
	case "float", "double":
		return "float"
	case "date", "dateTime":
		return "date"
	case "time", "duration", "gYearMonth", "gYear", "gMonthDay", "gDay", "gMonth":
		return "time"
	case "hexBinary", "base64Binary":
		return "binary"
	case "boolean":
		return "boolean"
	case "QName", "NOTATION":
		return "qname"
	case "NMTOKENS", "IDREFS", "ENTITIES":
		return "list"
	case "anyType", "anySimpleType":
		return "any"
	}
	return "string"
}

// Integer bounds of the integer types (as decimal strings are not needed, the
// generator stays within 18 digits).
func intRange(b string) (lo, hi int64) {
	const big = 999999999999999999
	switch b {
	case "nonPositiveInteger":
		return -big, 0
	case "negativeInteger":
		return -big, -1
	case "long", "integer":
		return -big, big
	case "int":
		return -2147483648, 2147483647
	case "short":
		return -32768, 32767
	case "byte":
		return -128, 127
	case "nonNegativeInteger", "unsignedLong":
		return 0, big
	case "unsignedInt":
		return 0, 4294967295
	case "unsignedShort":
		return 0, 65535
	case "unsignedByte":
		return 0, 255
	case "positiveInteger":
		return 1, big
	}
	return 0, 0
}

// IsInt says whether b is one of the integer types.
func IsInt(b string) bool { return Family(b) == "decimal" && b != "decimal" }

func genInt(t *rapid.T, b string) int64 {
	lo, hi := intRange(b)
	var v int64
	switch prop.Int(t, 6) {
	case 0:
		return lo
	case 1:
		return hi
	case 2:
		v = rapid.Int64Range(lo, hi).Draw(t, "int")
	default:
		v = int64(prop.Range(t, -20, 200))
	}
	if v < lo {
		v = lo
	}
	if v > hi {
		v = hi
	}
	return v
}

// Zone is an optional time zone.
func genZone(t *rapid.T) string {
	return prop.Pick(t, "", "", "Z", "+05:30", "-08:00", "+00:00", "+14:00", "-00:30")
}

func genDate(t *rapid.T) string {
	y := prop.Pick(t, 2001, 1999, 1, 9999, 2000, 1970, 1900)
	m := prop.Range(t, 1, 12)
	d := prop.Pick(t, 1, 28, 15, 9)
	if m == 2 && y == 2000 && prop.Chance(t, 8) {
		d = 29
	}
	return fmt.Sprintf("%04d-%02d-%02d", y, m, d)
}

func genTime(t *rapid.T) string {
	s := fmt.Sprintf("%02d:%02d:%02d", prop.Pick(t, 0, 23, 12, 9), prop.Pick(t, 0, 59, 30), prop.Pick(t, 0, 59, 7))
	return s + prop.Pick(t, "", "", ".5", ".125", ".000001", ".123456789")
}

var words = []string{"a", "red", "blue", "x1", "word", "Zeta", "öl", "n-1", "v.2", "under_score"}

func genNCName(t *rapid.T) string {
	return prop.Pick(t, "a", "red", "x1", "Zeta", "n-1", "v.2", "_u", "öl")
}

// Lex draws a value in the lexical space of a built-in type, without leading
// or trailing white space.
func Lex(t *rapid.T, b string) string {
	switch b {
	case "boolean":
		return prop.Pick(t, "true", "false", "1", "0")
	case "decimal":
		return prop.Pick(t, "0", "1.5", "-3.25", "100", "+7", "0.001", "12345.678", "-0.5", ".5", "3.")
	case "float", "double":
		return prop.Pick(t, "0", "1.5", "-3.25", "1e3", "1.5E-3", "INF", "-INF", "NaN", "100", "-0.5")
	case "duration":
		return prop.Pick(t, "P1D", "PT1H", "P1Y2M3DT4H5M6S", "-P2M", "PT0.5S")
	case "dateTime":
		return genDate(t) + "T" + genTime(t) + genZone(t)
	case "date":
		return genDate(t) + genZone(t)
	case "time":
		return genTime(t) + genZone(t)
	case "gYearMonth":
		return genDate(t)[:7] + genZone(t)
	case "gYear":
		return genDate(t)[:4] + genZone(t)
	case "gMonthDay":
		return "--" + genDate(t)[5:] + genZone(t)
	case "gDay":
		return fmt.Sprintf("---%02d", prop.Range(t, 1, 31)) + genZone(t)
	case "gMonth":
		return fmt.Sprintf("--%02d", prop.Range(t, 1, 12)) + genZone(t)
	case "hexBinary":
		return fmt.Sprintf("%x", genBytes(t))
	case "base64Binary":
		return base64.StdEncoding.EncodeToString(genBytes(t))
	case "anyURI":
		return prop.Pick(t, "http://example.com/a?b=c&d=e", "urn:x:y", "../rel", "#frag", "http://x/%20y")
	case "QName", "NOTATION":
		return genNCName(t)
	case "language":
		return prop.Pick(t, "en", "de-AT", "x-klingon", "fr")
	case "NMTOKEN":
		return prop.Pick(t, "a", "1a", "n-1", "x:y", "v.2", "-x")
	case "NMTOKENS", "IDREFS", "ENTITIES":
		n := prop.Range(t, 1, 3)
		var ws []string
		for i := 0; i < n; i++ {
			ws = append(ws, genNCName(t))
		}
		return strings.Join(ws, " ")
	case "Name":
		return prop.Pick(t, "a", "x:y", "_u", "Zeta", ":c")
	case "NCName", "ID", "IDREF", "ENTITY":
		return genNCName(t)
	case "string":
		return prop.Pick(t, "plain", "two words", "a<b & \"c\"", "", "ünïcode ☃", "it's", "]]>", "tab\tsep", "0")
	case "normalizedString":
		return prop.Pick(t, "plain", "two  words", "a<b & \"c\"", "", "ü")
	case "token":
		return prop.Pick(t, "plain", "two words", "a<b & \"c\"", "", "ü")
	case "anySimpleType", "anyType":
		return prop.Pick(t, "plain", "1", "two words")
	}
	if IsInt(b) {
		v := genInt(t, b)
		s := fmt.Sprint(v)
		switch prop.Int(t, 8) {
		case 0:
			if v >= 0 {
				return "+" + s
			}
		case 1:
			if v >= 0 {
				return "00" + s
			}
		}
		return s
	}
	panic("smodel: no values for " + b)
}

func genBytes(t *rapid.T) []byte {
	n := prop.Pick(t, 0, 1, 2, 3, 4, 5, 16, 40)
	out := make([]byte, n)
	for i := range out {
		out[i] = byte(prop.Int(t, 256))
	}
	return out
}
