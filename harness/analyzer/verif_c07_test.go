package analyzer_test

import (
	"math/rand"
	"strings"
	"testing"

	"github.com/google/capslock/analyzer"
	cpb "github.com/google/capslock/proto"
)

// Bounded runtime check of C07: generated lists, well formed or not.
func TestVerifC07(t *testing.T) {
	defer verifDone(t)
	r := rand.New(rand.NewSource(verifSeed() + 707))
	var names []string
	for n := range cpb.Capability_value {
		names = append(names, n)
	}
	items := func() string {
		n := names[r.Intn(len(names))]
		switch r.Intn(14) {
		case 0:
			return ""
		case 1:
			return "NOPE"
		case 2:
			return "-"
		case 3:
			return "--" + n
		case 4:
			return " " + n
		case 5:
			return strings.ToLower(n)
		case 6:
			return "CAPABILITY_" + n
		case 7, 8, 9, 10:
			return strings.TrimPrefix(n, "CAPABILITY_")
		}
		return n
	}
	for k := 0; k < verifN(20000, 200000); k++ {
		var list []string
		neg := r.Intn(2) == 0
		for n := r.Intn(5); n >= 0; n-- {
			it := items()
			if neg != (r.Intn(20) == 0) {
				it = "-" + it
			}
			list = append(list, it)
		}
		s := strings.Join(list, ",")
		if r.Intn(50) == 0 {
			s = ""
		}
		verifCases++
		cs, err := analyzer.NewCapabilitySet(s)
		ok := true
		in := map[cpb.Capability]bool{}
		negated := false
		if s != "" {
			negated = strings.HasPrefix(list[0], "-")
			for _, it := range list {
				if it == "" || strings.HasPrefix(it, "-") != negated {
					ok = false
				}
				n := strings.TrimPrefix(it, "-")
				v, found := cpb.Capability_value[n]
				if !found {
					v, found = cpb.Capability_value["CAPABILITY_"+n]
				}
				if !found {
					ok = false
				}
				in[cpb.Capability(v)] = true
			}
		}
		if (err == nil) != ok {
			verifFail(t, "list %q: error %v", s, err)
		}
		if err != nil {
			continue
		}
		for c := cpb.Capability(-1); c < 40; c++ {
			want := s == "" || in[c] != negated
			if cs.Has(c) != want {
				verifFail(t, "list %q: Has(%v) is %v", s, c, cs.Has(c))
			}
		}
	}
}
