// Package replx talks to an Alda REPL server and stands in for the player
// processes it uses. The bencode codec is written against the BitTorrent
// specification, not against the library alda uses.
package replx

import (
	"bufio"
	"fmt"
	"io"
	"sort"
	"strconv"
)

// Encode encodes strings, ints, lists and dictionaries.
func Encode(v interface{}) string {
	switch x := v.(type) {
	case string:
		return fmt.Sprintf("%d:%s", len(x), x)
	case int64:
		return fmt.Sprintf("i%de", x)
	case int:
		return fmt.Sprintf("i%de", x)
	case []interface{}:
		s := "l"
		for _, e := range x {
			s += Encode(e)
		}
		return s + "e"
	case map[string]interface{}:
		ks := []string{}
		for k := range x {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		s := "d"
		for _, k := range ks {
			s += Encode(k) + Encode(x[k])
		}
		return s + "e"
	}
	panic(fmt.Sprintf("cannot encode %T", v))
}

// Decode reads one value. It is strict: no leading zeros, dictionary keys in
// order and not repeated.
func Decode(r *bufio.Reader) (interface{}, error) {
	c, err := r.ReadByte()
	if err != nil {
		return nil, err
	}
	return decode(r, c)
}

func number(r *bufio.Reader, first byte, end byte) (int64, error) {
	s := ""
	if first != 0 {
		s = string(first)
	}
	for {
		c, err := r.ReadByte()
		if err != nil {
			return 0, eof(err)
		}
		if c == end {
			break
		}
		if s += string(c); len(s) > 20 {
			return 0, fmt.Errorf("bencode: number %q", s)
		}
	}
	n, err := strconv.ParseInt(s, 10, 64)
	if err != nil || strconv.FormatInt(n, 10) != s {
		return 0, fmt.Errorf("bencode: number %q", s)
	}
	return n, nil
}

func eof(err error) error {
	if err == io.EOF {
		return io.ErrUnexpectedEOF
	}
	return err
}

func decode(r *bufio.Reader, c byte) (interface{}, error) {
	switch {
	case c >= '0' && c <= '9':
		n, err := number(r, c, ':')
		if err != nil {
			return nil, err
		}
		if n > 1<<28 {
			return nil, fmt.Errorf("bencode: string of %d bytes", n)
		}
		b := make([]byte, n)
		if _, err := io.ReadFull(r, b); err != nil {
			return nil, eof(err)
		}
		return string(b), nil
	case c == 'i':
		n, err := number(r, 0, 'e')
		return int(n), err
	case c == 'l':
		out := []interface{}{}
		for {
			c, err := r.ReadByte()
			if err != nil {
				return nil, eof(err)
			}
			if c == 'e' {
				return out, nil
			}
			v, err := decode(r, c)
			if err != nil {
				return nil, err
			}
			out = append(out, v)
		}
	case c == 'd':
		out := map[string]interface{}{}
		last, any := "", false
		for {
			c, err := r.ReadByte()
			if err != nil {
				return nil, eof(err)
			}
			if c == 'e' {
				return out, nil
			}
			k, err := decode(r, c)
			if err != nil {
				return nil, err
			}
			ks, ok := k.(string)
			if !ok {
				return nil, fmt.Errorf("bencode: key of type %T", k)
			}
			if any && ks <= last {
				return nil, fmt.Errorf("bencode: key %q after %q", ks, last)
			}
			last, any = ks, true
			c, err = r.ReadByte()
			if err != nil {
				return nil, eof(err)
			}
			if out[ks], err = decode(r, c); err != nil {
				return nil, err
			}
		}
	}
	return nil, fmt.Errorf("bencode: unexpected byte %q", c)
}
