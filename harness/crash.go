package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync/atomic"
	"syscall"

	"github.com/abichinger/fastac"
	"github.com/abichinger/fastac/model"
	"github.com/abichinger/fastac/storage/adapter"
)

// Domain "crash": a child process (the victim) writes or reads a policy file under ptrace. At
// every system call which concerns the directory of the file, the parent looks at the file as
// any other process would see it, and may let the call fail, cut it short or kill the victim.

func init() {
	commands["victim"] = cmdVictim
	domains["crash"] = domainSpec{new: func() Domain { return &crashDomain{} }, gen: map[string]func(h *H){
		"crash": genCrash, "many": genMany,
	}}
}

type crashDomain struct {
	dir string // of the policy file
	ctl string
	ev  Ev
}

func crashRule(name string) []string {
	var n, size int
	_, err := fmt.Sscanf(name, "r%dx%d", &n, &size)
	check(err)
	return []string{"p", name, strings.Repeat(fmt.Sprintf("%d,", n), size/2+1)}
}

func crashNames(rules [][]string) []string {
	names := []string{}
	for _, r := range rules {
		name := "?" + strings.Join(r, "|")
		if len(r) == 3 && strings.HasPrefix(r[1], "r") && strings.Contains(r[1], "x") && r[0] == "p" && r[2] == crashRule(r[1])[2] {
			name = r[1]
		}
		if len(name) > 40 {
			name = name[:40]
		}
		names = append(names, name)
	}
	sort.Strings(names)
	return names
}

func crashRules(names []string) (res [][]string) {
	for _, n := range names {
		res = append(res, crashRule(n))
	}
	return res
}

func (d *crashDomain) path() string { return filepath.Join(d.dir, "policy.csv") }

func (d *crashDomain) Init(ev Ev) {
	dir, err := os.MkdirTemp("", "verif-crash-")
	check(err)
	d.dir, d.ctl, d.ev = filepath.Join(dir, "data"), filepath.Join(dir, "ctl"), obj(canon(ev))
	check(os.Mkdir(d.ctl, 0700))
}

func (d *crashDomain) Close() { os.RemoveAll(filepath.Dir(d.ctl)) }

// reset puts the file into its first state
func (d *crashDomain) reset() {
	check(os.RemoveAll(d.dir))
	check(os.Mkdir(d.dir, 0700))
	if boolean(d.ev, "missing") {
		return
	}
	path := d.path()
	if boolean(d.ev, "link") {
		path = filepath.Join(d.dir, "target.csv")
		check(os.Symlink("target.csv", d.path()))
	}
	check(os.WriteFile(path, []byte(rawPolicy(crashRules(strs(d.ev["file"])), num(d.ev, "style"))), 0600))
	check(os.Chmod(path, crashMode(d.ev)))
}

func (d *crashDomain) content() []string {
	r := &reader{}
	err := adapter.NewFileAdapter(d.path()).LoadPolicy(r)
	if os.IsNotExist(err) {
		return []string{"!missing"}
	}
	if err != nil {
		return []string{"!bad"}
	}
	return crashNames(r.rules)
}

// kept tells whether the file is still what it was, apart from its content, and what else there is
func (d *crashDomain) kept() Ev {
	res := Ev{"link": true, "mode": true, "extra": 0}
	if boolean(d.ev, "link") {
		info, err := os.Lstat(d.path())
		res["link"] = err == nil && info.Mode()&os.ModeSymlink != 0
	}
	if info, err := os.Stat(d.path()); err == nil && !boolean(d.ev, "missing") {
		res["mode"] = info.Mode().Perm() == crashMode(d.ev)
	}
	entries, err := os.ReadDir(d.dir)
	check(err)
	for _, e := range entries {
		if e.Name() != "policy.csv" && e.Name() != "target.csv" {
			res["extra"] = num(res, "extra") + 1
		}
	}
	return res
}

func crashMode(ev Ev) os.FileMode {
	return []os.FileMode{0600, 0640, 0644, 0664, 0755}[num(ev, "style")%5]
}

func (d *crashDomain) Do(ev Ev) Ev {
	spec := obj(canon(d.ev))
	spec["dir"], spec["ctl"], spec["op"] = d.dir, d.ctl, ev["op"]
	for k, v := range obj(canon(ev)) {
		spec[k] = v
	}
	d.reset()
	res := d.run(spec, num(ev, "at"), str(ev, "how"))
	return res
}

// ---------------------------------------------------------------------------------- victim

func mark(name string) { syscall.Access("/verif-marker/"+name, 0) }

const crashModel = `[request_definition]
r = sub, obj
[policy_definition]
p = sub, obj
[policy_effect]
e = some(where (p.eft == allow))
[matchers]
m = r.sub == p.sub
`

func cmdVictim(args []string) {
	runtime.LockOSThread()
	var spec Ev
	b, err := os.ReadFile(args[0])
	check(err)
	check(json.Unmarshal(b, &spec))
	check(os.Chdir(str(spec, "dir")))
	path := filepath.Join(str(spec, "dir"), "policy.csv")
	if boolean(spec, "rel") {
		path = "policy.csv"
	}
	rules := crashRules(strs(spec["rules"]))
	a := adapter.NewFileAdapter(path)
	report := func(err error) {
		if err == nil {
			mark("ok")
		} else {
			mark("err")
		}
	}
	protect := func(fn func() error) func() error {
		return func() (err error) {
			if p := guard(func() { err = fn() }); p != "" {
				return fmt.Errorf("panic: %s", p)
			}
			return err
		}
	}
	var op, again func() error
	switch str(spec, "via") {
	case "adapter":
		switch str(spec, "kind") {
		case "save":
			op = func() error { return a.SavePolicy(&reader{rules: rules}) }
		case "adds":
			op = func() error { return a.AddRules(rules) }
			if len(rules) == 1 {
				op = func() error { return a.AddRule(rules[0]) }
			}
		case "dels":
			op = func() error { return a.RemoveRules(rules) }
			if len(rules) == 1 {
				op = func() error { return a.RemoveRule(rules[0]) }
			}
		case "load":
			op = func() error {
				r := &reader{}
				if err := a.LoadPolicy(r); err != nil {
					return err
				}
				b, err := json.Marshal(crashNames(r.rules))
				check(err)
				check(os.WriteFile(filepath.Join(str(spec, "ctl"), "loaded"), b, 0600))
				return nil
			}
		}
		again = op
	case "enforcer", "autosave":
		m := model.NewModel()
		check(m.LoadModelFromText(crashModel))
		auto := str(spec, "via") == "autosave"
		e, err := fastac.NewEnforcer(m, a, fastac.OptionAutosave(auto))
		check(err)
		if !boolean(spec, "missing") {
			check(e.LoadPolicy())
		}
		again = e.Flush
		switch str(spec, "kind") {
		case "save":
			check(e.SetOption(fastac.OptionStorage(false)))
			for _, r := range crashRules(strs(spec["file"])) {
				_, err := m.RemoveRule(r)
				check(err)
			}
			for _, r := range rules {
				_, err := m.AddRule(r)
				check(err)
			}
			op = e.SavePolicy
			again = op
		case "adds", "dels":
			op = func() error {
				if len(rules) == 1 && str(spec, "kind") == "adds" {
					_, err := e.AddRule(rules[0])
					return err
				} else if len(rules) == 1 {
					_, err := e.RemoveRule(rules[0])
					return err
				} else if str(spec, "kind") == "adds" {
					return e.AddRules(rules)
				}
				return e.RemoveRules(rules)
			}
			if !auto {
				check(protect(op)())
				op = e.Flush
			}
		}
	}
	op, again = protect(op), protect(again)
	if str(spec, "op") == "many" {
		// many operations with few handles, none of which a finaliser may close
		debug.SetGCPercent(-1)
		check(syscall.Setrlimit(syscall.RLIMIT_NOFILE, &syscall.Rlimit{Cur: 40, Max: 40}))
		mark("begin")
		for i := 0; i < num(spec, "n"); i++ {
			if boolean(spec, "failing") {
				check(os.Rename(str(spec, "dir"), str(spec, "dir")+".gone"))
				err = op()
				check(os.Rename(str(spec, "dir")+".gone", str(spec, "dir")))
			}
			if err = op(); err != nil {
				break
			}
		}
		report(err)
		return
	}
	mark("begin")
	report(op())
	report(again())
}

// ---------------------------------------------------------------------------------- tracer

type sysInfo struct {
	name string
	fds  []int // arguments which are file descriptors
	path []int // arguments which are paths
	at   []int // arguments which are directories for paths
}

var sysTable = map[uint64]sysInfo{
	0: {"read", []int{0}, nil, nil}, 1: {"write", []int{0}, nil, nil}, 2: {"open", nil, []int{0}, nil}, 3: {"close", []int{0}, nil, nil},
	4: {"stat", nil, []int{0}, nil}, 6: {"lstat", nil, []int{0}, nil}, 9: {"mmap", []int{4}, nil, nil},
	17: {"pread", []int{0}, nil, nil}, 18: {"pwrite", []int{0}, nil, nil}, 19: {"readv", []int{0}, nil, nil}, 20: {"writev", []int{0}, nil, nil},
	40: {"sendfile", []int{0, 1}, nil, nil}, 74: {"fsync", []int{0}, nil, nil}, 75: {"fsync", []int{0}, nil, nil},
	76: {"truncate", nil, []int{0}, nil}, 77: {"truncate", []int{0}, nil, nil}, 82: {"rename", nil, []int{0, 1}, nil},
	83: {"mkdir", nil, []int{0}, nil}, 85: {"open", nil, []int{0}, nil}, 86: {"link", nil, []int{0, 1}, nil}, 87: {"unlink", nil, []int{0}, nil},
	88: {"link", nil, []int{0, 1}, nil}, 90: {"chmod", nil, []int{0}, nil}, 91: {"chmod", []int{0}, nil, nil},
	257: {"open", nil, []int{1}, []int{0}}, 262: {"stat", nil, []int{1}, []int{0}}, 263: {"unlink", nil, []int{1}, []int{0}},
	264: {"rename", nil, []int{1, 3}, []int{0, 2}}, 265: {"link", nil, []int{1, 3}, []int{0, 2}}, 268: {"chmod", nil, []int{1}, []int{0}},
	285: {"truncate", []int{0}, nil, nil}, 296: {"writev", []int{0}, nil, nil}, 316: {"rename", nil, []int{1, 3}, []int{0, 2}},
	326: {"sendfile", []int{0, 2}, nil, nil}, 437: {"open", nil, []int{1}, []int{0}},
}

// an error of these calls means that something was not written
var mustReport = map[string]bool{"write": true, "pwrite": true, "writev": true, "sendfile": true, "fsync": true, "truncate": true, "rename": true}

func sysArg(r *syscall.PtraceRegs, i int) uint64 {
	return []uint64{r.Rdi, r.Rsi, r.Rdx, r.R10, r.R8, r.R9}[i]
}

func peekString(tid int, addr uint64) string {
	res := []byte{}
	buf := make([]byte, 64)
	for len(res) < 4096 {
		n, err := syscall.PtracePeekData(tid, uintptr(addr)+uintptr(len(res)), buf)
		for _, c := range buf[:n] {
			if c == 0 {
				return string(res)
			}
			res = append(res, c)
		}
		if err != nil || n == 0 {
			return string(res)
		}
	}
	return string(res)
}

func (d *crashDomain) inside(p string) bool { return p == d.dir || strings.HasPrefix(p, d.dir+"/") }

func (d *crashDomain) concerns(tid int, info sysInfo, r *syscall.PtraceRegs) bool {
	fd := func(i int) bool {
		l, err := os.Readlink(fmt.Sprintf("/proc/%d/fd/%d", tid, int32(sysArg(r, i))))
		return err == nil && d.inside(l)
	}
	for _, i := range info.fds {
		if fd(i) {
			return true
		}
	}
	for k, i := range info.path {
		p := peekString(tid, sysArg(r, i))
		if d.inside(p) || (p != "" && p[0] != '/' && (len(info.at) == 0 || int32(sysArg(r, info.at[k])) == -100 || fd(info.at[k]))) {
			return true
		}
	}
	return false
}

func forWriting(tid, fd int) bool {
	b, err := os.ReadFile(fmt.Sprintf("/proc/%d/fdinfo/%d", tid, fd))
	if err != nil {
		return false
	}
	var flags int
	i := strings.Index(string(b), "flags:")
	if i < 0 {
		return false
	}
	fmt.Sscanf(string(b)[i:], "flags: %o", &flags)
	return flags&3 != 0
}

// run executes the victim. how: none, error (call at fails), short (write at is cut short, the
// next one fails), kill (before call at), tear (write at is cut short, then the victim is killed)
func (d *crashDomain) run(spec Ev, at int, how string) Ev {
	runtime.LockOSThread()
	defer runtime.UnlockOSThread()
	b, err := json.Marshal(spec)
	check(err)
	file := filepath.Join(d.ctl, "spec")
	check(os.WriteFile(file, b, 0600))
	os.Remove(filepath.Join(d.ctl, "loaded"))
	exe, err := os.Executable()
	check(err)
	null, err := os.OpenFile("/dev/null", os.O_RDWR, 0)
	check(err)
	defer null.Close()
	logf, err := os.Create(filepath.Join(d.ctl, "log"))
	check(err)
	defer logf.Close()
	proc, err := os.StartProcess(exe, []string{exe, "victim", file}, &os.ProcAttr{
		Env: append(os.Environ(), "GOMAXPROCS=2", "GODEBUG=asyncpreemptoff=1"), Files: []*os.File{null, null, logf},
		Sys: &syscall.SysProcAttr{Ptrace: true}})
	check(err)
	defer func() {
		proc.Kill()
		proc.Release()
	}()
	pid := proc.Pid
	var ws syscall.WaitStatus
	_, err = syscall.Wait4(pid, &ws, 0, nil)
	check(err)
	if !ws.Stopped() {
		check(fmt.Errorf("the victim cannot be traced: %v", ws))
	}
	const exitKill = 0x100000
	check(syscall.PtraceSetOptions(pid, syscall.PTRACE_O_TRACESYSGOOD|syscall.PTRACE_O_TRACECLONE|exitKill))
	type fix struct{ errno int }
	entered := map[int]bool{}
	fixes := map[int]fix{}
	phase := 0 // 1 after begin, 2 after the operation returned, 3 after the second one
	n, stops := 0, 0
	ret, again := "dead", "dead"
	hit, must, cut, killNext := false, false, false, false
	seen := [][]string{}
	names := []string{}
	var after, afterAgain []string
	kept := Ev{"link": true, "mode": true, "extra": 0}
	look := func() []string {
		c := d.content()
		if len(seen) == 0 || strings.Join(seen[len(seen)-1], "\n") != strings.Join(c, "\n") {
			seen = append(seen, c)
		}
		return c
	}
	check(syscall.PtraceSyscall(pid, 0))
	for {
		tid, err := syscall.Wait4(-1, &ws, 0x40000000, nil)
		if err == syscall.EINTR {
			continue
		}
		if err == syscall.ECHILD {
			break
		}
		check(err)
		atomic.AddInt64(&progress, 1)
		if stops++; stops > 300000 {
			proc.Kill() // it never ends
		}
		if ws.Exited() || ws.Signaled() {
			if tid == pid {
				if ws.Exited() && ws.ExitStatus() != 0 && phase != 0 {
					// a crash of the code under test counts as no answer
					ret2, _ := os.ReadFile(filepath.Join(d.ctl, "log"))
					if strings.Contains(string(ret2), "harness:") {
						check(fmt.Errorf("the victim failed: %s", ret2))
					}
				} else if phase == 0 {
					ret2, _ := os.ReadFile(filepath.Join(d.ctl, "log"))
					check(fmt.Errorf("the victim did not start: %v %s", ws, ret2))
				}
				break
			}
			continue
		}
		if !ws.Stopped() {
			continue
		}
		sig := ws.StopSignal()
		switch {
		case sig == syscall.SIGTRAP|0x80:
			if entered[tid] {
				entered[tid] = false
				if f, ok := fixes[tid]; ok {
					delete(fixes, tid)
					var r syscall.PtraceRegs
					if syscall.PtraceGetRegs(tid, &r) == nil {
						r.Rax = uint64(-int64(f.errno))
						syscall.PtraceSetRegs(tid, &r)
					}
				}
				if killNext {
					killNext = false
					hit = true
					proc.Kill()
					continue
				}
				break
			}
			entered[tid] = true
			var r syscall.PtraceRegs
			if syscall.PtraceGetRegs(tid, &r) != nil {
				break
			}
			if r.Orig_rax == 21 || r.Orig_rax == 269 || r.Orig_rax == 439 { // access
				arg := r.Rdi
				if r.Orig_rax != 21 {
					arg = r.Rsi
				}
				p := peekString(tid, arg)
				if strings.HasPrefix(p, "/verif-marker/") {
					p = strings.TrimPrefix(p, "/verif-marker/")
					switch {
					case p == "begin":
						phase = 1
						look()
					case phase == 1:
						phase, ret, after = 2, p, look()
						kept = d.kept()
					case phase == 2:
						phase, again, afterAgain = 3, p, look()
					}
				}
				break
			}
			info, ok := sysTable[r.Orig_rax]
			if phase == 0 || phase == 3 || !ok || !d.concerns(tid, info, &r) {
				break
			}
			look()
			if phase != 1 || str(spec, "op") == "many" {
				break
			}
			n++
			name := info.name
			if name == "close" && forWriting(tid, int(int32(r.Rdi))) {
				name = "wclose"
			}
			names = append(names, name)
			fail := func(errno syscall.Errno) {
				fixes[tid] = fix{int(errno)}
				r.Orig_rax = ^uint64(0)
				check(syscall.PtraceSetRegs(tid, &r))
				hit = true
				must = must || mustReport[name] || name == "wclose"
			}
			writes := name == "write" || name == "pwrite"
			switch {
			case how == "kill" && n == at:
				hit = true
				proc.Kill()
				continue
			case how == "error" && n == at && name != "mmap":
				fail(syscall.EIO)
			case how == "short" && writes && cut:
				cut = false
				fail(syscall.ENOSPC)
			case (how == "short" || how == "tear") && n == at && writes && r.Rdx > 1:
				r.Rdx = r.Rdx / 2
				check(syscall.PtraceSetRegs(tid, &r))
				cut = true
				killNext = how == "tear"
			}
		case sig == syscall.SIGTRAP, sig == syscall.SIGSTOP:
		default:
			syscall.PtraceSyscall(tid, int(sig))
			continue
		}
		syscall.PtraceSyscall(tid, 0)
	}
	if after == nil || ret == "dead" {
		after = look()
	}
	if str(spec, "op") == "many" {
		return Ev{"ret": ret, "after": after}
	}
	if ret == "dead" && hit && (how == "kill" || how == "tear") {
		// the next process
		r := d.run(spec, 0, "none")
		again, afterAgain = str(r, "ret"), strs(canon(r["after"]))
		for _, c := range list(canon(r["seen"])) {
			seen = append(seen, strs(c))
		}
	}
	if afterAgain == nil {
		afterAgain = d.content()
	}
	loaded := []string{}
	if b, err := os.ReadFile(filepath.Join(d.ctl, "loaded")); err == nil {
		check(json.Unmarshal(b, &loaded))
	}
	return Ev{"ret": ret, "again": again, "seen": seen, "after": after, "then": afterAgain, "hit": hit, "must": must, "calls": names, "loaded": loaded, "kept": kept}
}

// ---------------------------------------------------------------------------------- generator

func crashScenario(h *H) Ev {
	size := func() int { return []int{1, 10, 300, 1500, 5000}[h.Intn(5)] }
	all := []string{}
	for i := 0; i < 12; i++ {
		all = append(all, fmt.Sprintf("r%dx%d", i, size()))
	}
	some := func(p float64, min int) []string {
		res := []string{}
		for _, n := range all {
			if h.P(p) {
				res = append(res, n)
			}
		}
		for len(res) < min {
			res = append(res, all[h.Intn(len(all))])
		}
		return res
	}
	ev := Ev{"kind": []string{"save", "save", "adds", "dels", "load"}[h.Intn(5)], "file": some(0.5, 0), "style": h.Intn(420),
		"link": h.P(0.25), "rel": h.P(0.3), "missing": false}
	kind := str(ev, "kind")
	ev["via"] = []string{"adapter", "adapter", "enforcer", "autosave"}[h.Intn(4)]
	if kind == "load" {
		ev["via"] = "adapter"
	}
	ev["rules"] = some(0.5, 0)
	if kind != "save" && h.P(0.5) {
		ev["rules"] = some(0, 1)
	}
	if kind != "save" && len(ev["rules"].([]string)) == 0 {
		ev["rules"] = some(0, 1)
	}
	if kind == "save" && h.P(0.3) {
		ev["missing"], ev["file"], ev["link"] = true, []string{}, false
	}
	return ev
}

func genCrash(h *H) {
	h.Init(crashScenario(h))
	res := h.Do(Ev{"op": "run", "at": 0, "how": "none"})
	calls := strs(canon(res["calls"]))
	for i, c := range calls {
		h.Do(Ev{"op": "run", "at": i + 1, "how": "error"})
		if c == "write" || c == "pwrite" {
			h.Do(Ev{"op": "run", "at": i + 1, "how": "short"})
			h.Do(Ev{"op": "run", "at": i + 1, "how": "tear"})
		}
		if h.P(0.3) {
			h.Do(Ev{"op": "run", "at": i + 1, "how": "kill"})
		}
	}
}

func genMany(h *H) {
	sc := crashScenario(h)
	if str(sc, "kind") != "save" {
		sc["via"] = "adapter" // an enforcer does not repeat a change
	}
	h.Init(sc)
	h.Do(Ev{"op": "many", "n": 60, "failing": h.P(0.5)})
}
