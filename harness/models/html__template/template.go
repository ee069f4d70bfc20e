package template

import "io"

// model

// Templates of text and fields of a struct, in HTML text.

type zzPart struct{ text, field string }

var zzParts = map[*Template][]zzPart{}

// zzField gives a field of a struct as text, and whether it is a string.
func zzField(data any, name string) (string, bool)

func zz_model_New(name string) *Template { return &Template{} }

func zz_model_Template__Name(t *Template) string { return "" }

func zzTrim(s string) string {
	for len(s) > 0 && s[0] == ' ' {
		s = s[1:]
	}
	for len(s) > 0 && s[len(s)-1] == ' ' {
		s = s[:len(s)-1]
	}
	return s
}

func zzIndex(s, sep string) int {
	for i := 0; i+len(sep) <= len(s); i++ {
		if s[i:i+len(sep)] == sep {
			return i
		}
	}
	return -1
}

func zz_model_Template__Parse(t *Template, text string) (*Template, error) {
	var ps []zzPart
	for {
		i := zzIndex(text, "{{")
		if i < 0 {
			ps = append(ps, zzPart{text: text})
			break
		}
		ps = append(ps, zzPart{text: text[:i]})
		text = text[i+2:]
		j := zzIndex(text, "}}")
		if j < 0 {
			zzField(nil, "unclosed action")
		}
		ps = append(ps, zzPart{field: zzTrim(text[:j])})
		text = text[j+2:]
	}
	zzParts[t] = ps
	return t, nil
}

func zzEscape(s string) string {
	var b []byte
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case 0:
			b = append(b, "\uFFFD"...)
		case '"':
			b = append(b, "&#34;"...)
		case '&':
			b = append(b, "&amp;"...)
		case '\'':
			b = append(b, "&#39;"...)
		case '+':
			b = append(b, "&#43;"...)
		case '<':
			b = append(b, "&lt;"...)
		case '>':
			b = append(b, "&gt;"...)
		default:
			b = append(b, s[i])
		}
	}
	return string(b)
}

func zz_model_Template__Execute(t *Template, wr io.Writer, data any) error {
	for _, p := range zzParts[t] {
		s := p.text
		if p.field != "" {
			text := false
			if s, text = zzField(data, p.field); text {
				s = zzEscape(s)
			}
		}
		if s == "" {
			continue
		}
		if _, err := wr.Write([]byte(s)); err != nil {
			return err
		}
	}
	return nil
}

func zz_model_Must(t *Template, err error) *Template {
	if err != nil {
		panic(err)
	}
	return t
}

func zz_model_HTMLEscapeString(s string) string { return zzEscape(s) }
