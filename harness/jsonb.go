package main

import (
	"bytes"
	"fmt"
	"strconv"
)

// B is a byte string; in JSON it is a list of numbers, as in the specification.
type B []byte

func (b B) MarshalJSON() ([]byte, error) {
	out := make([]byte, 0, 2+4*len(b))
	out = append(out, '[')
	for i, x := range b {
		if i > 0 {
			out = append(out, ',')
		}
		out = strconv.AppendUint(out, uint64(x), 10)
	}
	return append(out, ']'), nil
}

func (b *B) UnmarshalJSON(d []byte) error {
	d = bytes.TrimSpace(d)
	if len(d) < 2 || d[0] != '[' || d[len(d)-1] != ']' {
		return fmt.Errorf("not a byte list")
	}
	out := make([]byte, 0, len(d)/3)
	n, have := 0, false
	for _, c := range d[1:] {
		switch {
		case c >= '0' && c <= '9':
			n, have = 10*n+int(c-'0'), true
			if n > 255 {
				return fmt.Errorf("not a byte")
			}
		case c == ',' || c == ']':
			if have {
				out = append(out, byte(n))
			}
			n, have = 0, false
		case c == ' ':
		default:
			return fmt.Errorf("not a byte list")
		}
	}
	*b = out
	return nil
}
