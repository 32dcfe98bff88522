//go:build go1.22

package fakes

import (
	"encoding/base64"
	"encoding/json"
	"math/rand"
	"sort"
	"strings"
)

// Mutate returns a hostile variant of a JSON document: values replaced, keys dropped, renamed or nulled, lists cut or
// grown, or the bytes themselves damaged.
func Mutate(r *rand.Rand, doc []byte) []byte {
	if r.Intn(6) == 0 {
		return damage(r, doc)
	}
	var v interface{}
	dec := json.NewDecoder(strings.NewReader(string(doc)))
	dec.UseNumber()
	if dec.Decode(&v) != nil {
		return damage(r, doc)
	}
	for n := 1 + r.Intn(2); n > 0; n-- {
		v = mutateValue(r, v)
	}
	b, err := json.Marshal(v)
	if err != nil {
		return damage(r, doc)
	}
	return b
}

func damage(r *rand.Rand, doc []byte) []byte {
	d := append([]byte(nil), doc...)
	switch r.Intn(5) {
	case 0:
		if len(d) > 0 {
			d = d[:r.Intn(len(d))]
		}
	case 1:
		for n := 1 + r.Intn(4); n > 0 && len(d) > 0; n-- {
			d[r.Intn(len(d))] = byte(r.Intn(256))
		}
	case 2:
		d = append(d, d...)
	case 3:
		d = make([]byte, r.Intn(64))
		r.Read(d)
	case 4:
		d = []byte([]string{"", "null", "[]", "{}", "0", "\"\"", "true", "[null]", "{\"a\":{}}", strings.Repeat("[", 2000)}[r.Intn(10)])
	}
	return d
}

func hostileValue(r *rand.Rand) interface{} {
	switch r.Intn(12) {
	case 0:
		return nil
	case 1:
		return ""
	case 2:
		return []string{"zz", "0", "00", strings.Repeat("ff", 33), strings.Repeat("ab", 31), "x" + strings.Repeat("0", 63), "01", "AA==", "AAAA", "AAAAAA==", base64.StdEncoding.EncodeToString([]byte{0xff, 0xff, 0xff, 0xff, 1, 2, 3, 4, 5}), strings.Repeat("00", 33), "01" + strings.Repeat("00", 32)}[r.Intn(13)]
	case 3:
		return json.Number([]string{"0", "-1", "9223372036854775807", "-9223372036854775808", "18446744073709551615", "1e300", "0.5", "18446744073709551616", "2147483648"}[r.Intn(9)])
	case 4:
		return true
	case 5:
		return []interface{}{}
	case 6:
		return []interface{}{nil}
	case 7:
		return map[string]interface{}{}
	case 8:
		return []interface{}{map[string]interface{}{}, nil, "x"}
	case 9:
		b := make([]byte, r.Intn(70))
		r.Read(b)
		return base64.StdEncoding.EncodeToString(b)
	case 10:
		return map[string]interface{}{"provider_id": "zz", "cids": []interface{}{"zz"}}
	}
	return []interface{}{"zz", ""}
}

func mutateValue(r *rand.Rand, v interface{}) interface{} {
	switch x := v.(type) {
	case map[string]interface{}:
		var keys []string
		for k := range x {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		if len(keys) == 0 {
			return hostileValue(r)
		}
		k := keys[r.Intn(len(keys))]
		switch r.Intn(8) {
		case 0:
			delete(x, k)
		case 1, 2:
			x[k] = hostileValue(r)
		case 3:
			x[k] = x[keys[r.Intn(len(keys))]]
		default:
			x[k] = mutateValue(r, x[k])
		}
		return x
	case []interface{}:
		if len(x) == 0 || r.Intn(6) == 0 {
			return hostileValue(r)
		}
		i := r.Intn(len(x))
		switch r.Intn(6) {
		case 0:
			return append(x[:i], x[i+1:]...)
		case 1:
			return append(x, x[i])
		case 2:
			return append(x, hostileValue(r))
		default:
			x[i] = mutateValue(r, x[i])
		}
		return x
	case string:
		// a nested document, or bytes
		if raw, err := base64.StdEncoding.DecodeString(x); err == nil && len(raw) > 1 && r.Intn(2) == 0 {
			if raw[0] == '{' || raw[0] == '[' || raw[0] == '"' {
				return base64.StdEncoding.EncodeToString(Mutate(r, raw))
			}
			return base64.StdEncoding.EncodeToString(damage(r, raw))
		}
		if len(x) > 0 && r.Intn(3) == 0 {
			b := []byte(x)
			b[r.Intn(len(b))] = "0123456789abcdefgZ-"[r.Intn(19)]
			if r.Intn(3) == 0 {
				b = b[:r.Intn(len(b))]
			}
			return string(b)
		}
		return hostileValue(r)
	}
	return hostileValue(r)
}
