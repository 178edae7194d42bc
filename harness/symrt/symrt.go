// Package symrt holds models, written in Go, that the symbolic engine executes
// in place of standard-library functions whose real bodies are assembly or
// reflection. It is never linked into a native run for any other purpose.
package symrt

import (
	"errors"
	"fmt"
	"io"
	"strconv"

	"verif/harness/sym"
)

// RuntimeError is the dynamic type of engine-raised run-time panics.
type RuntimeError struct{ Msg string }

func (e RuntimeError) Error() string { return "runtime error: " + e.Msg }
func (e RuntimeError) RuntimeError() {}

// ---- engine-provided ----

// SwapAny swaps two elements of the slice held in x.
func SwapAny(x any, i, j int) { panic("engine only") }

// LenAny is the length of the slice held in x.
func LenAny(x any) int { panic("engine only") }

// ElemAny is element i of the slice (or array) held in x as an interface.
func ElemAny(x any, i int) any { panic("engine only") }

// FieldAny is field i of the struct held in x.
func FieldAny(x any, i int) any { panic("engine only") }

// NumFieldAny is its number of fields.
func NumFieldAny(x any) int { panic("engine only") }

// KindAny: 0 nil, 1 bool, 2 signed, 3 unsigned, 4 string, 5 slice, 6 struct,
// 7 pointer, 8 other, 9 float.
func KindAny(x any) int { panic("engine only") }

// IntAny, UintAny, StrAny, BoolAny read scalars of any named type.
func IntAny(x any) int64   { panic("engine only") }
func UintAny(x any) uint64 { panic("engine only") }
func StrAny(x any) string  { panic("engine only") }
func BoolAny(x any) bool   { panic("engine only") }

// IsByteSlice reports whether x holds a []byte-like slice.
func IsByteSlice(x any) bool { panic("engine only") }

// DerefAny is the value x points to.
func DerefAny(x any) any { panic("engine only") }

// TypeName is the printed type.
func TypeName(x any) string { panic("engine only") }

// ---- strings, bytes ----

func Index(s, sub string) int {
	n := len(sub)
	for i := 0; i+n <= len(s); i++ {
		if s[i:i+n] == sub {
			return i
		}
	}
	return -1
}

func LastIndex(s, sub string) int {
	n := len(sub)
	for i := len(s) - n; i >= 0; i-- {
		if s[i:i+n] == sub {
			return i
		}
	}
	return -1
}

func IndexByteString(s string, c byte) int {
	for i := 0; i < len(s); i++ {
		if s[i] == c {
			return i
		}
	}
	return -1
}

func LastIndexByteString(s string, c byte) int {
	for i := len(s) - 1; i >= 0; i-- {
		if s[i] == c {
			return i
		}
	}
	return -1
}

func IndexByte(s []byte, c byte) int {
	for i := 0; i < len(s); i++ {
		if s[i] == c {
			return i
		}
	}
	return -1
}

func LastIndexByte(s []byte, c byte) int {
	for i := len(s) - 1; i >= 0; i-- {
		if s[i] == c {
			return i
		}
	}
	return -1
}

func CountString(s string, c byte) int {
	n := 0
	for i := 0; i < len(s); i++ {
		if s[i] == c {
			n++
		}
	}
	return n
}

func Count(s []byte, c byte) int {
	n := 0
	for i := 0; i < len(s); i++ {
		if s[i] == c {
			n++
		}
	}
	return n
}

func CountSub(s, sub string) int {
	if len(sub) == 0 {
		n := 1
		for range s {
			n++
		}
		return n
	}
	n := 0
	for {
		i := Index(s, sub)
		if i < 0 {
			return n
		}
		n++
		s = s[i+len(sub):]
	}
}

func Equal(a, b []byte) bool { return string(a) == string(b) }

func Compare(a, b []byte) int { return CompareString(string(a), string(b)) }

func CompareString(a, b string) int {
	if a == b {
		return 0
	}
	if a < b {
		return -1
	}
	return 1
}

func IndexBytes(s, sub []byte) int { return Index(string(s), string(sub)) }

func MakeNoZero(n int) []byte { return make([]byte, n) }

// ---- sort ----

func SortSlice(x any, less func(i, j int) bool) {
	n := LenAny(x)
	for i := 1; i < n; i++ {
		for j := i; j > 0 && less(j, j-1); j-- {
			SwapAny(x, j, j-1)
		}
	}
}

func SliceIsSorted(x any, less func(i, j int) bool) bool {
	n := LenAny(x)
	for i := n - 1; i > 0; i-- {
		if less(i, i-1) {
			return false
		}
	}
	return true
}

// ---- errors ----

func ErrorsIs(err, target error) bool {
	if err == nil || target == nil {
		return err == target
	}
	for {
		if err == target {
			return true
		}
		if x, ok := err.(interface{ Is(error) bool }); ok && x.Is(target) {
			return true
		}
		switch x := err.(type) {
		case interface{ Unwrap() error }:
			err = x.Unwrap()
			if err == nil {
				return false
			}
		case interface{ Unwrap() []error }:
			for _, e := range x.Unwrap() {
				if ErrorsIs(e, target) {
					return true
				}
			}
			return false
		default:
			return false
		}
	}
}

// ---- fmt ----

type wrapError struct {
	msg string
	err error
}

func (e *wrapError) Error() string { return e.msg }
func (e *wrapError) Unwrap() error { return e.err }

func Errorf(format string, a ...any) error {
	s := Sprintf(format, a...)
	for i := 0; i+1 < len(format); i++ {
		if format[i] == '%' && format[i+1] == 'w' {
			for _, x := range a {
				if e, ok := x.(error); ok {
					return &wrapError{s, e}
				}
			}
		}
		if format[i] == '%' {
			i++
		}
	}
	return errors.New(s)
}

func Fprintf(w io.Writer, format string, a ...any) (int, error) {
	return w.Write([]byte(Sprintf(format, a...)))
}

func Fprint(w io.Writer, a ...any) (int, error) { return w.Write([]byte(Sprint(a...))) }

func Fprintln(w io.Writer, a ...any) (int, error) { return w.Write([]byte(Sprintln(a...))) }

func Sprint(a ...any) string {
	out := ""
	prevStr := false
	for i, x := range a {
		isStr := KindAny(x) == 4
		if i > 0 && !isStr && !prevStr {
			out += " "
		}
		out += verb('v', x, 0, false, -1)
		prevStr = isStr
	}
	return out
}

func Sprintln(a ...any) string {
	out := ""
	for i, x := range a {
		if i > 0 {
			out += " "
		}
		out += verb('v', x, 0, false, -1)
	}
	return out + "\n"
}

func Printf(format string, a ...any) (int, error) { return 0, nil }
func Println(a ...any) (int, error)               { return 0, nil }

func Appendf(b []byte, format string, a ...any) []byte {
	return append(b, Sprintf(format, a...)...)
}

func Sprintf(format string, a ...any) string {
	out := ""
	arg := 0
	for i := 0; i < len(format); i++ {
		c := format[i]
		if c != '%' {
			out += format[i : i+1]
			continue
		}
		i++
		zero, minus, sharp, plus := false, false, false, false
		for i < len(format) {
			switch format[i] {
			case '0':
				zero = true
			case '-':
				minus = true
			case '#':
				sharp = true
			case '+':
				plus = true
			default:
				goto done
			}
			i++
		}
	done:
		width := -1
		for i < len(format) && format[i] >= '0' && format[i] <= '9' {
			if width < 0 {
				width = 0
			}
			width = width*10 + int(format[i]-'0')
			i++
		}
		if i < len(format) && format[i] == '*' {
			width = int(IntAny(a[arg]))
			arg++
			i++
		}
		prec := -1
		if i < len(format) && format[i] == '.' {
			i++
			prec = 0
			for i < len(format) && format[i] >= '0' && format[i] <= '9' {
				prec = prec*10 + int(format[i]-'0')
				i++
			}
		}
		if i >= len(format) {
			return out + "%!(NOVERB)"
		}
		v := format[i]
		if v == '%' {
			out += "%"
			continue
		}
		if arg >= len(a) {
			out += "%!" + string(rune(v)) + "(MISSING)"
			continue
		}
		s := verb(v, a[arg], prec, sharp, width)
		if plus && (v == 'd' || v == 'v') && KindAny(a[arg]) == 2 && IntAny(a[arg]) >= 0 {
			s = "+" + s
		}
		arg++
		for len(s) < width {
			if minus {
				s += " "
			} else if zero {
				if len(s) > 0 && s[0] == '-' {
					s = "-0" + s[1:]
				} else {
					s = "0" + s
				}
			} else {
				s = " " + s
			}
		}
		out += s
	}
	return out
}

func verb(v byte, x any, prec int, sharp bool, width int) string {
	switch v {
	case 's', 'v', 'w', 'q', 'x', 'X':
		if !sharp {
			switch y := x.(type) {
			case error:
				return strVerb(v, y.Error())
			case fmt.Stringer:
				return strVerb(v, y.String())
			}
		}
	case 'T':
		return TypeName(x)
	}
	switch KindAny(x) {
	case 0:
		return "<nil>"
	case 1:
		if BoolAny(x) {
			return "true"
		}
		return "false"
	case 2:
		n := IntAny(x)
		switch v {
		case 'c':
			return string(rune(n))
		case 'q':
			return strconv.QuoteRune(rune(n))
		case 'x':
			return strconv.FormatInt(n, 16)
		case 'X':
			return upper(strconv.FormatInt(n, 16))
		case 'b':
			return strconv.FormatInt(n, 2)
		case 'o':
			return strconv.FormatInt(n, 8)
		case 'U':
			s := upper(strconv.FormatInt(n, 16))
			for len(s) < 4 {
				s = "0" + s
			}
			return "U+" + s
		}
		return strconv.FormatInt(n, 10)
	case 3:
		n := UintAny(x)
		switch v {
		case 'c':
			return string(rune(n))
		case 'q':
			return strconv.QuoteRune(rune(n))
		case 'x':
			return strconv.FormatUint(n, 16)
		case 'X':
			return upper(strconv.FormatUint(n, 16))
		case 'b':
			return strconv.FormatUint(n, 2)
		case 'o':
			return strconv.FormatUint(n, 8)
		}
		if sharp && v == 'v' {
			return "0x" + strconv.FormatUint(n, 16)
		}
		return strconv.FormatUint(n, 10)
	case 4:
		return strVerb(v, StrAny(x))
	case 5:
		if IsByteSlice(x) && v != 'v' && v != 'd' {
			b := ""
			for i := 0; i < LenAny(x); i++ {
				b += string([]byte{byte(UintAny(ElemAny(x, i)))})
			}
			return strVerb(v, b)
		}
		out := "["
		for i := 0; i < LenAny(x); i++ {
			if i > 0 {
				out += " "
			}
			out += verb(v, ElemAny(x, i), prec, sharp, width)
		}
		return out + "]"
	case 6:
		out := "{"
		for i := 0; i < NumFieldAny(x); i++ {
			if i > 0 {
				out += " "
			}
			out += verb(v, FieldAny(x, i), prec, sharp, width)
		}
		return out + "}"
	case 7:
		return "&" + verb(v, DerefAny(x), prec, sharp, width)
	}
	panic("symrt: unsupported operand of a format verb")
}

func upper(s string) string {
	b := []byte(s)
	for i := range b {
		if b[i] >= 'a' && b[i] <= 'z' {
			b[i] -= 'a' - 'A'
		}
	}
	return string(b)
}

func strVerb(v byte, s string) string {
	switch v {
	case 'q':
		return strconv.Quote(s)
	case 'x', 'X':
		const lo, up = "0123456789abcdef", "0123456789ABCDEF"
		d := lo
		if v == 'X' {
			d = up
		}
		out := ""
		for i := 0; i < len(s); i++ {
			out += d[s[i]>>4:s[i]>>4+1] + d[s[i]&15:s[i]&15+1]
		}
		return out
	}
	return s
}

// Choice draws and case-splits in separate instructions.
func Choice(n int) int { return sym.Conc(sym.Int(0, n-1)) }

// AssignAny stores err in *target when the types agree.
func AssignAny(err error, target any) bool { panic("engine only") }

// ErrorsAs models errors.As.
func ErrorsAs(err error, target any) bool {
	for err != nil {
		if AssignAny(err, target) {
			return true
		}
		if x, ok := err.(interface{ As(any) bool }); ok && x.As(target) {
			return true
		}
		switch x := err.(type) {
		case interface{ Unwrap() error }:
			err = x.Unwrap()
		case interface{ Unwrap() []error }:
			for _, e := range x.Unwrap() {
				if ErrorsAs(e, target) {
					return true
				}
			}
			return false
		default:
			return false
		}
	}
	return false
}
