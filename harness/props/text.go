package props

import (
	"strconv"

	abnf "github.com/pandatix/go-abnf"
)

// text prints a grammar for humans, independently of the library's printer.
func text(g *abnf.Grammar) string {
	s := ""
	for _, r := range g.Rulemap {
		s += r.Name + " = " + textAlt(r.Alternation) + "; "
	}
	return s
}

func textAlt(a abnf.Alternation) string {
	s := ""
	for i, c := range a.Concatenations {
		if i > 0 {
			s += " / "
		}
		for j, r := range c.Repetitions {
			if j > 0 {
				s += " "
			}
			s += textRep(r)
		}
	}
	return s
}

func textRep(r abnf.Repetition) string {
	s := ""
	if r.Min != 1 || r.Max != 1 {
		if r.Min == r.Max {
			s = strconv.Itoa(r.Min)
		} else {
			if r.Min != 0 {
				s += strconv.Itoa(r.Min)
			}
			s += "*"
			if r.Max >= 0 {
				s += strconv.Itoa(r.Max)
			}
		}
	}
	return s + textElem(r.Element)
}

func textElem(e abnf.ElemItf) string {
	switch v := e.(type) {
	case abnf.ElemRulename:
		return v.Name
	case abnf.ElemGroup:
		return "(" + textAlt(v.Alternation) + ")"
	case abnf.ElemOption:
		return "[" + textAlt(v.Alternation) + "]"
	case abnf.ElemCharVal:
		s := ""
		if v.Sensitive {
			s = "%s"
		}
		s += "\""
		for _, c := range v.Values {
			s += string(c)
		}
		return s + "\""
	case abnf.ElemNumVal:
		s := "%" + v.Base
		for i, c := range v.Elems {
			if i > 0 {
				if v.Status == abnf.StatRange {
					s += "-"
				} else {
					s += "."
				}
			}
			s += c
		}
		return s
	}
	return e.String()
}
