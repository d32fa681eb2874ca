package main

// Replaying a counterexample against the compiled code: the harness is built
// natively (with the same stubs, injected at the start of the stubbed
// functions through a build overlay) and run with the model's values.

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"go/ast"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"syscall"
	"time"
)

type ReplayFile struct {
	Property string
	Harness  string
	Label    string
	Msg      string
	Pos      string
	Tier     string
	Multi    bool
	Values   map[string]uint64
	Sched    []int
	Native   string
	Stack    string
}

type nativeBuild struct {
	dir string
	bin string
	err error
}

var nhookRe = regexp.MustCompile(`(?m)^//verif:nhook\s+(.+?)\s+([A-Za-z_][A-Za-z0-9_]*)\s+(\S+)\s*$`)

type inj struct {
	target, local, pkg string
}

// buildNative compiles the replay binary. prefixes: which value-name prefixes
// occur (decides which native-only hooks are installed).
func (ld *Loaded) buildNative(names map[string]bool, race bool) *nativeBuild {
	nb := &nativeBuild{}
	dir, err := os.MkdirTemp("", "gosym-replay-")
	if err != nil {
		nb.err = err
		return nb
	}
	nb.dir = dir
	replace := map[string]string{}
	for k, v := range ld.overlay {
		replace[k] = v
	}
	var injs []inj
	for _, h := range ld.hooks {
		injs = append(injs, inj{h.target, h.local, h.pkg})
	}
	for dst, src := range ld.overlay {
		b, _ := os.ReadFile(src)
		rel, _ := filepath.Rel(repoDir, filepath.Dir(dst))
		pp := modPath
		if rel != "." {
			pp += "/" + rel
		}
		if ld.pkgs[pp] == nil {
			continue
		}
		for _, m := range nhookRe.FindAllStringSubmatch(string(b), -1) {
			use := m[3] == "*"
			for n := range names {
				for _, pre := range strings.Split(m[3], "|") {
					if strings.HasPrefix(n, pre) {
						use = true
					}
				}
			}
			if use {
				injs = append(injs, inj{m[1], m[2], pp})
			}
		}
	}
	sort.Slice(injs, func(i, j int) bool { return injs[i].target < injs[j].target })
	type edit struct {
		off  int
		text string
	}
	edits := map[string][]edit{}
	appends := map[string]string{}
	gen := map[string][]string{} // harness pkg -> install lines
	imps := map[string]map[string]string{}
	for i, in := range injs {
		p, f, fd := ld.funcDecl(in.target)
		if fd == nil {
			continue // target not linked in
		}
		file := ld.fset.Position(f.Pos()).Filename
		if strings.Contains(file, "/pkg/mod/") {
			continue // the module cache cannot be overlaid: symbolic only
		}
		real := file
		if r, ok := ld.overlay[file]; ok {
			real = r
		}
		src, err := os.ReadFile(real)
		if err != nil {
			nb.err = err
			return nb
		}
		text := func(n ast.Node) string {
			return string(src[ld.fset.Position(n.Pos()).Offset:ld.fset.Position(n.End()).Offset])
		}
		var ptypes, args []string
		addField := func(fl *ast.Field) error {
			t := text(fl.Type)
			ns := fl.Names
			if len(ns) == 0 {
				return fmt.Errorf("hook target %s has unnamed parameters", in.target)
			}
			for _, n := range ns {
				if n.Name == "_" {
					return fmt.Errorf("hook target %s has a blank parameter", in.target)
				}
				ptypes = append(ptypes, t)
				a := n.Name
				if strings.HasPrefix(t, "...") {
					a += "..."
				}
				args = append(args, a)
			}
			return nil
		}
		if fd.Recv != nil {
			if nb.err = addField(fd.Recv.List[0]); nb.err != nil {
				return nb
			}
		}
		for _, fl := range fd.Type.Params.List {
			if nb.err = addField(fl); nb.err != nil {
				return nb
			}
		}
		res := ""
		ret := ""
		if fd.Type.Results != nil {
			res = text(fd.Type.Results)
			ret = "return "
		}
		v := fmt.Sprintf("VerifHook_%d", i)
		call := fmt.Sprintf("%s%s(%s)", ret, v, strings.Join(args, ", "))
		if ret == "" {
			call += "; return"
		}
		off := ld.fset.Position(fd.Body.Lbrace).Offset + 1
		edits[file] = append(edits[file], edit{off, fmt.Sprintf(" if %s != nil { %s }; ", v, call)})
		appends[file] += fmt.Sprintf("\nvar %s func(%s) %s\n", v, strings.Join(ptypes, ", "), res)
		if gen[in.pkg] == nil {
			imps[in.pkg] = map[string]string{}
		}
		if p.PkgPath == in.pkg {
			gen[in.pkg] = append(gen[in.pkg], fmt.Sprintf("%s = %s", v, in.local))
		} else {
			al := fmt.Sprintf("vh%d", len(imps[in.pkg]))
			if a, ok := imps[in.pkg][p.PkgPath]; ok {
				al = a
			}
			imps[in.pkg][p.PkgPath] = al
			gen[in.pkg] = append(gen[in.pkg], fmt.Sprintf("%s.%s = %s", al, v, in.local))
		}
	}
	n := 0
	write := func(dst, content string) {
		n++
		f := filepath.Join(dir, fmt.Sprintf("f%d.go", n))
		if err := os.WriteFile(f, []byte(content), 0o644); err != nil {
			nb.err = err
		}
		replace[dst] = f
	}
	for file, es := range edits {
		real := file
		if r, ok := ld.overlay[file]; ok {
			real = r
		}
		src, _ := os.ReadFile(real)
		sort.Slice(es, func(i, j int) bool { return es[i].off > es[j].off })
		s := string(src)
		for _, e := range es {
			s = s[:e.off] + e.text + s[e.off:]
		}
		write(file, s+appends[file])
	}
	var mainImp, mainInst, cases []string
	mi := map[string]string{}
	alias := func(pp string) string {
		if a, ok := mi[pp]; ok {
			return a
		}
		a := fmt.Sprintf("p%d", len(mi))
		mi[pp] = a
		mainImp = append(mainImp, fmt.Sprintf("%s %q", a, pp))
		return a
	}
	for pp, lines := range gen {
		var sb strings.Builder
		fmt.Fprintf(&sb, "package %s\n\n", ld.pkgs[pp].Pkg.Name())
		for ip, a := range imps[pp] {
			fmt.Fprintf(&sb, "import %s %q\n", a, ip)
		}
		fmt.Fprintf(&sb, "\nfunc VerifInstallHooks() {\n\t%s\n}\n", strings.Join(lines, "\n\t"))
		rel := strings.TrimPrefix(strings.TrimPrefix(pp, modPath), "/")
		write(filepath.Join(repoDir, rel, "zz_verif_hooks_gen.go"), sb.String())
		mainInst = append(mainInst, alias(pp)+".VerifInstallHooks()")
	}
	for _, h := range ld.harnesses {
		cases = append(cases, fmt.Sprintf("case %q: %s.%s()", h.Name, alias(h.Fn.Pkg.Pkg.Path()), h.Name))
	}
	vsA := alias(vsPath)
	write(filepath.Join(repoDir, "internal", "verif", "zzreplay", "main.go"), fmt.Sprintf(`package main

import (
	"os"
	%s
)

func main() {
	%s
	switch os.Args[1] {
	%s
	}
	%s.Done()
}
`, strings.Join(mainImp, "\n\t"), strings.Join(mainInst, "\n\t"), strings.Join(cases, "\n\t"), vsA))
	if nb.err != nil {
		return nb
	}
	ovf := filepath.Join(dir, "overlay.json")
	ob, _ := json.Marshal(map[string]interface{}{"Replace": replace})
	os.WriteFile(ovf, ob, 0o644)
	nb.bin = filepath.Join(dir, "replay")
	args := []string{"build", "-overlay", ovf, "-o", nb.bin}
	if race {
		args = append(args, "-race")
	}
	args = append(args, "./internal/verif/zzreplay")
	ctx, cancel := context.WithTimeout(context.Background(), 240*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, "go", args...)
	cmd.Dir = repoDir
	cgo := "CGO_ENABLED=0"
	if race {
		cgo = "CGO_ENABLED=1"
	}
	cmd.Env = append(os.Environ(), cgo, "GOFLAGS=-mod=readonly", "GOPROXY=off", "GOWORK=off")
	out, err := cmd.CombinedOutput()
	if err != nil {
		nb.err = fmt.Errorf("native build failed: %v: %s", err, tail(string(out), 1500))
	}
	return nb
}

func (nb *nativeBuild) clean() {
	if nb.dir != "" && strings.Contains(nb.dir, "gosym-replay-") {
		os.RemoveAll(nb.dir)
	}
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}

// run executes one replay; outcome is one of "ok", "fail:<label>", "panic",
// "race", "timeout", "assume", "exit:<n>".
func (nb *nativeBuild) run(harness, replay string, timeout time.Duration) (string, string) {
	ctx, cancel := context.WithTimeout(context.Background(), timeout)
	defer cancel()
	scratch, err := os.MkdirTemp("", "gosym-scratch-")
	if err != nil {
		return "error", err.Error()
	}
	defer os.RemoveAll(scratch)
	cmd := exec.CommandContext(ctx, nb.bin, harness)
	cmd.Dir = scratch
	cmd.Env = append(os.Environ(), "VERIF_REPLAY="+replay, "GOTRACEBACK=single", "TMPDIR="+scratch)
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	cmd.Cancel = func() error { return syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL) }
	var ob bytes.Buffer
	cmd.Stdout = &ob
	cmd.Stderr = &ob
	err = cmd.Run()
	out := ob.String()
	if ctx.Err() != nil {
		return "timeout", tail(out, 500)
	}
	if strings.Contains(out, "DATA RACE") {
		return "race", tail(out, 3000)
	}
	if i := strings.Index(out, "VERIF-FAIL "); i >= 0 {
		l := out[i+len("VERIF-FAIL "):]
		if j := strings.IndexByte(l, '\n'); j >= 0 {
			l = l[:j]
		}
		return "fail:" + l, tail(out, 500)
	}
	if strings.Contains(out, "VERIF-ASSUME") {
		return "assume", tail(out, 500)
	}
	if err == nil {
		return "ok", ""
	}
	if strings.Contains(out, "all goroutines are asleep") {
		return "deadlock", tail(out, 1500)
	}
	if strings.Contains(out, "panic:") || strings.Contains(out, "fatal error:") {
		return "panic", tail(out, 1500)
	}
	code := -1
	if cmd.ProcessState != nil {
		code = cmd.ProcessState.ExitCode()
	}
	return fmt.Sprintf("exit:%d", code), tail(out, 500)
}

// matches tells whether a native outcome confirms a symbolic violation.
func matches(v *Violation, outcome string) bool {
	switch v.Label {
	case "panic":
		return outcome == "panic" || outcome == "race"
	case "nontermination":
		return outcome == "timeout" || outcome == "panic" || outcome == "deadlock"
	case "deadlock":
		return outcome == "deadlock" || outcome == "timeout"
	case "race":
		return outcome == "race"
	}
	return outcome == "fail:"+v.Label || (strings.HasPrefix(outcome, "fail:") && !strings.HasPrefix(outcome, "fail:known"))
}
