package shared

import (
	"os"
)

// Runs of the command: in the engine main is called in a world of its own (see
// common_fs.go), natively the test binary starts itself as the command.

func init() {
	if !vEngine() && os.Getenv("VERIF_CHILD") != "" {
		main()
		os.Exit(0)
	}
}

type vfExitT struct{ code int }

type vfResult struct {
	out, err []byte
	code     int
}

// verif:replace os.Exit
func vfExit(code int) {
	vfExited = true
	panic(vfExitT{code})
}

// vfRun runs the command with its input from stdin (a file or directory of the
// world; "": nothing) and its output to a pipe, or to a full device.
func vfRun(stdin string, full bool, args ...string) (res vfResult) {
	if !vEngine() {
		return vfRunNative(stdin, full, args)
	}
	in := vfFind(stdin)
	if stdin == "" || in == nil {
		in = &vfNode{name: "/dev/stdin", kind: vfPipe}
	}
	out, errs := &vfNode{name: "/dev/stdout", kind: vfPipe}, &vfNode{name: "/dev/stderr", kind: vfPipe}
	if full {
		out.kind = vfFull
	}
	vfAdd(os.Stdin, in, "/dev/stdin", os.O_RDONLY)
	vfAdd(os.Stdout, out, "/dev/stdout", os.O_WRONLY)
	vfAdd(os.Stderr, errs, "/dev/stderr", os.O_WRONLY)
	os.Args = append([]string{"command"}, args...)
	defer func() {
		if p := recover(); p != nil {
			x, ok := p.(vfExitT)
			if !ok {
				panic(p)
			}
			res.code = x.code
		}
		res.out, res.err = out.data, errs.data
	}()
	main()
	return
}

func vfRunNative(stdin string, full bool, args []string) (res vfResult) {
	check := func(err error) {
		if err != nil {
			panic("native run: " + err.Error())
		}
	}
	dir := os.Getenv("VERIF_SCRATCH")
	if stdin == "" {
		stdin = "/dev/null"
	}
	in, err := os.Open(stdin)
	check(err)
	defer in.Close()
	o, err := os.MkdirTemp(dir, "std")
	check(err)
	defer os.RemoveAll(o)
	out, err := os.OpenFile(o+"/out", os.O_RDWR|os.O_CREATE, 0644)
	check(err)
	defer out.Close()
	if full {
		out, err = os.OpenFile("/dev/full", os.O_WRONLY, 0)
		check(err)
	}
	errs, err := os.OpenFile(o+"/err", os.O_RDWR|os.O_CREATE, 0644)
	check(err)
	defer errs.Close()
	exe, err := os.Executable()
	check(err)
	p, err := os.StartProcess(exe, append([]string{"command"}, args...), &os.ProcAttr{Env: append(os.Environ(), "VERIF_CHILD=1"), Files: []*os.File{in, out, errs}})
	check(err)
	st, err := p.Wait()
	check(err)
	res.code = st.ExitCode()
	res.out, _ = os.ReadFile(o + "/out")
	res.err, _ = os.ReadFile(o + "/err")
	return
}
