package checks

import (
	"fmt"
	"math/big"
	"regexp"
	"strings"

	"github.com/hedzr/store"
	"github.com/hedzr/store/verifharness/eng"
)

func init() {
	register("C25", runC25, "the product fits into 64 bits", "numbers in Go syntax which end with a letter of a unit (0x1e, 0b) and texts with several units are not claimed")
}

var sizeText = regexp.MustCompile(`^(0[xX][0-9a-fA-F]*[0-9]|0[0-7]+|0|[1-9][0-9]*|[0-9]+\.[0-9]*|\.[0-9]+)\p{Z}*([kmgtpeKMGTPE]?)(i?[bB])?$`)

// size is the independent reading of a text: the admissible range, ok=false if the text is not a well-formed size.
func size(text string, base int64, binary bool) (lo, hi *big.Int, ok bool) {
	m := sizeText.FindStringSubmatch(strings.TrimSpace(text))
	if m == nil || !binary && strings.HasPrefix(m[3], "i") || m[2] == "" && strings.HasPrefix(m[3], "i") {
		return nil, nil, false
	}
	num := new(big.Rat)
	if n, isInt := new(big.Int).SetString(m[1], 0); isInt && !strings.Contains(m[1], ".") {
		num.SetInt(n)
	} else if f, _, err := big.ParseFloat(m[1], 10, 53, big.ToNearestEven); err == nil {
		f.Rat(num)
	} else {
		return nil, nil, false
	}
	if m[2] != "" {
		e := strings.Index("kmgtpe", strings.ToLower(m[2])) + 1
		num.Mul(num, new(big.Rat).SetInt(new(big.Int).Exp(big.NewInt(base), big.NewInt(int64(e)), nil)))
	}
	exact := new(big.Int).Quo(num.Num(), num.Denom())
	tol := big.NewInt(0)
	if strings.Contains(m[1], ".") && base == 1000 {
		tol.Rsh(exact, 52)
		tol.Add(tol, big.NewInt(1))
	}
	if exact.BitLen() > 63 && strings.Contains(m[1], ".") || exact.BitLen() > 64 {
		return nil, nil, false
	}
	return new(big.Int).Sub(exact, tol), new(big.Int).Add(exact, tol), true
}

var noNumber = regexp.MustCompile(`^[^0-9]*$|^\s*-`)

func checkSize(text string) error {
	st := store.New()
	st.Set("app.size", text)
	sec := st.WithPrefix("app")
	for _, x := range []struct {
		name string
		base int64
		get  func(s store.Store, k string) (uint64, error)
		must func(s store.Store, k string, def ...uint64) uint64
	}{
		{"KibiBytes", 1024, func(s store.Store, k string) (uint64, error) { return s.GetKibiBytes(k) }, func(s store.Store, k string, d ...uint64) uint64 { return s.MustKibiBytes(k, d...) }},
		{"KiloBytes", 1000, func(s store.Store, k string) (uint64, error) { return s.GetKiloBytes(k) }, func(s store.Store, k string, d ...uint64) uint64 { return s.MustKiloBytes(k, d...) }},
	} {
		got, err := x.get(st, "app.size")
		if must := x.must(st, "app.size"); err == nil && must != got {
			return errf("Must%s = %d, Get%s = %d", x.name, must, x.name, got)
		}
		if v := x.must(sec, "size"); err == nil && v != got {
			return errf("Must%s by a view = %d, by the store %d", x.name, v, got)
		}
		if lo, hi, ok := size(text, x.base, x.base == 1024); ok {
			g := new(big.Int).SetUint64(got)
			if err != nil || g.Cmp(lo) < 0 || g.Cmp(hi) > 0 {
				return errf("Get%s of %q = %d, %v, want %v", x.name, text, got, err, lo)
			}
		} else if noNumber.MatchString(text) && got != 0 {
			return errf("Get%s of %q = %d, which is not a size", x.name, text, got)
		}
		// a default is for what is absent or empty
		if v := x.must(st, "app.size", 77); err == nil && text != "" && v != got {
			return errf("Must%s of %q = %d with a default, %d without", x.name, text, v, got)
		} else if text == "" && v != 77 {
			return errf("Must%s of an empty text = %d, want the default", x.name, v)
		}
		if v := x.must(sec, "size", 78); err == nil && text != "" && v != got {
			return errf("Must%s of %q by a view = %d with a default, %d without", x.name, text, v, got)
		}
		if v := x.must(st, "app.none", 77); v != 77 {
			return errf("Must%s of an absent key = %d, want the default", x.name, v)
		}
		if v, _ := x.get(st, "app.none"); v != 0 {
			return errf("Get%s of an absent key = %d", x.name, v)
		}
	}
	return nil
}

func runC25(c *eng.Ctx) {
	var texts []string
	nums := []string{"0", "1", "2", "7", "8", "10", "512", "999", "1000", "1023", "1024", "65535", "1048577", "4294967296", "9007199254740993", "18446744073709551615",
		"0.5", "1.5", "0.1", "2.75", "1023.999", "3.", ".25", "0.0", "10.10", "0x99", "0x10", "0700", "017", "0X7fff1", "00"}
	for _, n := range nums {
		for _, pre := range []string{"", " ", "\t"} {
			for _, sp := range []string{"", " ", "  ", "\u00a0", "\u3000"} {
				for _, u := range strings.Split(",k,m,g,t,p,e,K,M,G,T,P,E,z,y,x,kk,KM", ",") {
					for _, s := range []string{"", "B", "b", "iB", "ib", "IB", "i", "Bi"} {
						for _, post := range []string{"", " ", "\n"} {
							texts = append(texts, pre+n+sp+u+s+post)
						}
					}
				}
			}
		}
	}
	for _, n := range []string{"-1", "-1.5", "-0.5", "abc", "", "k", "B", "iB", ".", "..", "NaN", "Inf", "+1", "1e3", "1_000", "1.5.5", "é", "٣", "-", "- 5", "true", "<nil>", "１"} {
		for _, u := range []string{"", "k", "MB", "GiB", " E", "é", "\xff"} {
			texts = append(texts, n+u)
		}
	}
	eng.Enum(c, "catalogue", len(texts), func(i int) string { return fmt.Sprintf("size %q", texts[i]) }, func(i int) (int, error) { return 2, checkSize(texts[i]) })

	// all short texts
	alpha := []string{"0", "1", "5", ".", "k", "M", "B", "i", " ", "-", "x", "é", "e"}
	n, ln := 1, pick(c, 5, 6)
	for i := 0; i < ln; i++ {
		n *= len(alpha)
	}
	word := func(i int) string {
		var sb strings.Builder
		for j := 0; j < ln; j++ {
			sb.WriteString(alpha[i%len(alpha)])
			i /= len(alpha)
		}
		return sb.String()
	}
	eng.Enum(c, "short", n, func(i int) string { return fmt.Sprintf("size %q", word(i)) }, func(i int) (int, error) { return 2, checkSize(word(i)) })

	// stored numbers
	vals := []any{0, 1, 1024, int8(7), int16(700), int32(70000), int64(1) << 40, uint(9), uint8(200), uint16(65535), uint32(4294967295), uint64(1) << 63, 1024.0, float32(512)}
	eng.Enum(c, "numbers", len(vals), func(i int) string { return fmt.Sprintf("%T(%v)", vals[i], vals[i]) }, func(i int) (int, error) {
		st := store.New()
		st.Set("n", vals[i])
		want := fmt.Sprint(vals[i])
		if a, b := fmt.Sprint(st.MustKibiBytes("n")), fmt.Sprint(st.MustKiloBytes("n")); a != want || b != want {
			return 2, errf("sizes of the number %s: %s, %s", want, a, b)
		}
		if a, b := fmt.Sprint(st.MustKibiBytes("n", 77)), fmt.Sprint(st.MustKiloBytes("n", 77)); a != want || b != want {
			return 2, errf("sizes of the number %s with a default: %s, %s", want, a, b)
		}
		return 2, nil
	})
}
