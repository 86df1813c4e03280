package analyzer_test

import (
	"errors"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"regexp"
	"strings"
	"testing"

	"github.com/google/capslock/analyzer"
	cpb "github.com/google/capslock/proto"
	"google.golang.org/protobuf/encoding/protojson"
	"google.golang.org/protobuf/proto"
)

var (
	newLine  = regexp.MustCompile(`^Package (.*) has new capability (\S+) compared to the baseline\.$`)
	lostLine = regexp.MustCompile(`^Package (.*) no longer has capability (\S+) which was in the baseline\.$`)
)

// compareKeys returns the pairs of a result at a granularity.
func compareKeys(cil *cpb.CapabilityInfoList, g analyzer.Granularity) map[string]bool {
	m := map[string]bool{}
	for _, ci := range cil.CapabilityInfo {
		c := ci.GetCapability().String()
		switch g {
		case analyzer.GranularityFunction:
			if len(ci.Path) > 0 && ci.Path[0].GetName() != "" {
				m[ci.Path[0].GetName()+" "+c] = true
			}
		case analyzer.GranularityIntermediate:
			if ci.GetPackageDir() != "" {
				m[ci.GetPackageDir()+" "+c] = true
			}
			for _, f := range ci.Path {
				if f.GetPackage() != "" {
					m[f.GetPackage()+" "+c] = true
				}
			}
		default:
			m[ci.GetPackageDir()+" "+c] = true
		}
	}
	return m
}

// Bounded runtime check of C12.
func TestVerifC12(t *testing.T) {
	defer verifDone(t)
	r := rand.New(rand.NewSource(verifSeed() + 1212))
	file := filepath.Join(os.Getenv("VERIF_SCRATCH"), "baseline.json")
	for _, p := range vPrograms(t, r, verifN(4, 12)) {
		for k := 0; k < verifN(40, 120); k++ {
			m, q := p.randomModel(r)
			g := []analyzer.Granularity{analyzer.GranularityUnset, analyzer.GranularityPackage, analyzer.GranularityFunction, analyzer.GranularityIntermediate}[r.Intn(4)]
			eff := g
			if g == analyzer.GranularityUnset {
				eff = analyzer.GranularityPackage
			}
			omit := r.Intn(3) == 0
			config := func(g analyzer.Granularity) *analyzer.Config {
				return &analyzer.Config{Classifier: m.c, DisableBuiltin: true, Granularity: g, OmitPaths: omit}
			}
			cur := analyzer.GetCapabilityInfo(p.pkgs, q, config(eff))
			base := proto.Clone(cur).(*cpb.CapabilityInfoList)
			caps := []cpb.Capability{0, 1, 2, 3, 4, 14}
			for n := r.Intn(4); n > 0; n-- {
				l := base.CapabilityInfo
				switch {
				case len(l) > 0 && r.Intn(3) == 0: // remove
					i := r.Intn(len(l))
					base.CapabilityInfo = append(l[:i:i], l[i+1:]...)
				case len(l) > 0 && r.Intn(3) == 0: // change the capability
					base.CapabilityInfo[r.Intn(len(l))].Capability = caps[r.Intn(len(caps))].Enum()
				case len(l) > 0 && r.Intn(3) == 0: // same entry again
					base.CapabilityInfo = append(l, proto.Clone(l[r.Intn(len(l))]).(*cpb.CapabilityInfo))
				case len(l) > 0 && r.Intn(3) == 0: // reorder
					r.Shuffle(len(l), func(i, j int) { l[i], l[j] = l[j], l[i] })
				case len(l) > 0 && r.Intn(3) == 0: // another path from the same function
					ci := l[r.Intn(len(l))]
					if len(ci.Path) > 1 {
						ci.Path = ci.Path[:1]
					}
				default: // add
					name := fmt.Sprintf("m.x/n%d", r.Intn(4))
					ci := &cpb.CapabilityInfo{Capability: caps[r.Intn(len(caps))].Enum(), PackageDir: proto.String(name),
						Path: []*cpb.Function{{Name: proto.String(name + ".F"), Package: proto.String(name)}}}
					if r.Intn(3) == 0 {
						ci.Path = append(ci.Path, &cpb.Function{Name: proto.String("m.x/k.F"), Package: proto.String("m.x/k")}, &cpb.Function{Name: proto.String("wrapper")})
					}
					if r.Intn(4) == 0 {
						ci.Path = nil
					}
					base.CapabilityInfo = append(base.CapabilityInfo, ci)
				}
			}
			data, err := protojson.MarshalOptions{Multiline: true}.Marshal(base)
			if err != nil {
				t.Fatal(err)
			}
			if err := os.WriteFile(file, data, 0o644); err != nil {
				t.Fatal(err)
			}
			out := captureStdout(t, func() { err = analyzer.RunCapslock([]string{file}, "compare", p.pkgs, q, config(g)) })
			inBase, inCur := compareKeys(base, eff), compareKeys(cur, eff)
			want := map[string]int{}
			for k := range inCur {
				if !inBase[k] {
					want["new "+k] = 1
				}
			}
			for k := range inBase {
				if !inCur[k] {
					want["lost "+k] = 1
				}
			}
			got := map[string]int{}
			for _, l := range strings.Split(out, "\n") {
				if s := newLine.FindStringSubmatch(l); s != nil {
					got["new "+s[1]+" "+s[2]]++
				} else if s := lostLine.FindStringSubmatch(l); s != nil {
					got["lost "+s[1]+" "+s[2]]++
				}
			}
			fail := func(format string, args ...any) {
				verifFail(t, "granularity %d, paths omitted %v: %s; baseline %s; %s", g, omit, fmt.Sprintf(format, args...), data, p.describe(m))
			}
			if d := diffCounts(got, want); d != "" {
				fail("the comparison prints: %s", d)
			}
			switch {
			case err == nil && len(want) > 0:
				fail("no difference found, want %v", want)
			case errors.As(err, new(analyzer.DifferenceFoundError)) && len(want) == 0:
				fail("difference found, want none")
			case err != nil && !errors.As(err, new(analyzer.DifferenceFoundError)):
				fail("error %v", err)
			}
			verifCases++
			if r.Intn(4) != 0 {
				continue
			}
			// A baseline that cannot be read or parsed.
			bad, what := []byte(nil), ""
			name := file
			switch r.Intn(6) {
			case 0:
				bad, what = data[:len(data)-1-r.Intn(len(data)/2+1)], "cut off"
			case 1:
				bad, what = nil, "empty"
			case 2:
				bad, what = append(append([]byte{}, data...), "}"...), "followed by more"
			case 3:
				name, what = file+".missing", "missing"
			case 4:
				name, what = filepath.Dir(file), "a directory"
			default:
				bad, what = []byte(`{"capabilityInfo": [{"capability": "CAPABILITY_NOT_ONE"}]}`), "with an unknown capability"
			}
			if name == file {
				if err := os.WriteFile(file, bad, 0o644); err != nil {
					t.Fatal(err)
				}
			}
			captureStdout(t, func() { err = analyzer.RunCapslock([]string{name}, "compare", p.pkgs, q, config(g)) })
			if err == nil || errors.As(err, new(analyzer.DifferenceFoundError)) {
				fail("result %v for a baseline that is %s", err, what)
			}
			verifCases++
		}
	}
}
