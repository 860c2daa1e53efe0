package harness

import (
	"errors"
	"sort"
	"strconv"
)

// An independent bencode codec for scripted peers and oracles.

type D map[string]interface{}
type L []interface{}
type Raw string // already encoded

func benc(v interface{}) string {
	switch v := v.(type) {
	case Raw:
		return string(v)
	case int:
		return "i" + strconv.Itoa(v) + "e"
	case int64:
		return "i" + strconv.FormatInt(v, 10) + "e"
	case string:
		return strconv.Itoa(len(v)) + ":" + v
	case []byte:
		return strconv.Itoa(len(v)) + ":" + string(v)
	case L:
		s := "l"
		for _, x := range v {
			s += benc(x)
		}
		return s + "e"
	case D:
		ks := make([]string, 0, len(v))
		for k := range v {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		s := "d"
		for _, k := range ks {
			s += benc(k) + benc(v[k])
		}
		return s + "e"
	}
	panic("benc: bad type")
}

var errBen = errors.New("not bencode")

// bdec decodes one value at the start of s and returns what follows it. Key
// order is not enforced: senders in the wild (and this node) do not sort.
func bdec(s string) (interface{}, string, error) { return bdecD(s, 0) }

func bdecD(s string, depth int) (interface{}, string, error) {
	if s == "" || depth > 20000 {
		return nil, s, errBen
	}
	switch c := s[0]; {
	case c == 'i':
		i := 1
		if i < len(s) && s[i] == '-' {
			i++
		}
		st := i
		for i < len(s) && s[i] >= '0' && s[i] <= '9' {
			i++
		}
		if i == st || i >= len(s) || s[i] != 'e' {
			return nil, s, errBen
		}
		if s[st] == '0' && (i-st > 1 || s[st-1] == '-') {
			return nil, s, errBen
		}
		n, err := strconv.ParseInt(s[1:i], 10, 64)
		if err != nil {
			return nil, s, errBen
		}
		return n, s[i+1:], nil
	case c >= '0' && c <= '9':
		i := 0
		for i < len(s) && s[i] >= '0' && s[i] <= '9' {
			i++
		}
		if i >= len(s) || s[i] != ':' || i > 9 {
			return nil, s, errBen
		}
		n, _ := strconv.Atoi(s[:i])
		if i+1+n > len(s) {
			return nil, s, errBen
		}
		return s[i+1 : i+1+n], s[i+1+n:], nil
	case c == 'l':
		out := L{}
		s = s[1:]
		for {
			if s == "" {
				return nil, s, errBen
			}
			if s[0] == 'e' {
				return out, s[1:], nil
			}
			v, r, err := bdecD(s, depth+1)
			if err != nil {
				return nil, s, err
			}
			out = append(out, v)
			s = r
		}
	case c == 'd':
		out := D{}
		s = s[1:]
		for {
			if s == "" {
				return nil, s, errBen
			}
			if s[0] == 'e' {
				return out, s[1:], nil
			}
			k, r, err := bdecD(s, depth+1)
			if err != nil {
				return nil, s, err
			}
			ks, ok := k.(string)
			if !ok {
				return nil, s, errBen
			}
			v, r2, err := bdecD(r, depth+1)
			if err != nil {
				return nil, s, err
			}
			out[ks] = v
			s = r2
		}
	}
	return nil, s, errBen
}

func bdict(b []byte) (D, bool) {
	v, rest, err := bdec(string(b))
	d, ok := v.(D)
	return d, err == nil && ok && rest == ""
}

func (d D) str(k string) (string, bool) { s, ok := d[k].(string); return s, ok }
func (d D) num(k string) (int64, bool)  { s, ok := d[k].(int64); return s, ok }
func (d D) dict(k string) (D, bool)     { s, ok := d[k].(D); return s, ok }
func (d D) list(k string) (L, bool)     { s, ok := d[k].(L); return s, ok }
