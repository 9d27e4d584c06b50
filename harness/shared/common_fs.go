package shared

import (
	"errors"
	"io"
	"os"
	"syscall"
)

// A file system that checks can give any content and any fault to. In the
// engine it stands for the operating system: the functions of package os below
// are replaced by ones on it, everything above them runs as it is. Natively the
// same world is made in a scratch directory.

const (
	vfRegular = iota
	vfDir     // a directory
	vfFull    // a device that takes no data, as /dev/full
	vfPipe    // standard output
)

type vfNode struct {
	name string
	data []byte
	kind int
}

type vfOpen struct {
	f           *os.File
	node        *vfNode
	name        string
	pos         int
	app, rd, wr bool
	closed      bool
}

var (
	vfNodes  []*vfNode
	vfFiles  []*vfOpen
	vfRoot   string // native scratch directory
	vfBack   string
	vfExited bool
)

// vfBegin makes the world; vfEnd removes it again.
func vfBegin(nodes ...vfNode) {
	vfNodes, vfFiles, vfExited = nil, nil, false
	if vEngine() {
		for i := range nodes {
			n := nodes[i]
			vfNodes = append(vfNodes, &n)
		}
		return
	}
	dir, err := os.MkdirTemp(os.Getenv("VERIF_SCRATCH"), "fs")
	if err == nil {
		vfBack, err = os.Getwd()
	}
	if err == nil {
		err = os.Chdir(dir)
	}
	if err != nil {
		panic("native world: " + err.Error())
	}
	vfRoot = dir
	for _, n := range nodes {
		switch n.kind {
		case vfRegular:
			err = os.WriteFile(n.name, n.data, 0644)
		case vfDir:
			err = os.Mkdir(n.name, 0755)
		}
		if err != nil {
			panic("native world: " + err.Error())
		}
	}
}

func vfEnd() {
	if !vEngine() {
		os.Chdir(vfBack)
		os.RemoveAll(vfRoot)
	}
}

func vfFind(name string) *vfNode {
	for len(name) > 2 && name[0] == '.' && name[1] == '/' {
		name = name[2:]
	}
	for _, n := range vfNodes {
		if n.name == name {
			return n
		}
	}
	return nil
}

// vfContent is the content of the file, and whether there is such a file.
func vfContent(name string) ([]byte, bool) {
	if !vEngine() {
		b, err := os.ReadFile(name)
		return b, err == nil
	}
	n := vfFind(name)
	if n == nil || n.kind != vfRegular {
		return nil, false
	}
	return n.data, true
}

// vfOthers counts the files beside the named ones.
func vfOthers(names ...string) int {
	k := 0
	other := func(s string) bool {
		for _, n := range names {
			if n == s {
				return false
			}
		}
		return true
	}
	if !vEngine() {
		l, _ := os.ReadDir(".")
		for _, x := range l {
			if other(x.Name()) {
				k++
			}
		}
		return k
	}
	for _, n := range vfNodes {
		if n.kind <= vfDir && other(n.name) {
			k++
		}
	}
	return k
}

func vfErr(op, name string, e syscall.Errno) error {
	return &os.PathError{Op: op, Path: name, Err: e}
}

// verif:replace (syscall.Errno).Error
func vfErrnoText(e syscall.Errno) string {
	switch e {
	case syscall.ENOENT:
		return "no such file or directory"
	case syscall.EISDIR:
		return "is a directory"
	case syscall.EINVAL:
		return "invalid argument"
	case syscall.ENOSPC:
		return "no space left on device"
	case syscall.EEXIST:
		return "file exists"
	case syscall.ENOTDIR:
		return "not a directory"
	case syscall.EBADF:
		return "bad file descriptor"
	case syscall.ESPIPE:
		return "illegal seek"
	}
	return "errno"
}

func vfOf(f *os.File) *vfOpen {
	for _, o := range vfFiles {
		if o.f == f {
			return o
		}
	}
	return nil
}

func vfAdd(f *os.File, n *vfNode, name string, flag int) *os.File {
	acc := flag & 3
	vfFiles = append(vfFiles, &vfOpen{f: f, node: n, name: name, app: flag&os.O_APPEND != 0, rd: acc == os.O_RDONLY || acc == os.O_RDWR, wr: acc != os.O_RDONLY})
	return f
}

// verif:replace os.OpenFile
func vfOpenFile(name string, flag int, perm os.FileMode) (*os.File, error) {
	n := vfFind(name)
	if len(name) == 0 {
		return nil, vfErr("open", name, syscall.ENOENT)
	}
	if n == nil {
		if flag&os.O_CREATE == 0 {
			return nil, vfErr("open", name, syscall.ENOENT)
		}
		for i := len(name) - 1; i > 0; i-- {
			if name[i] == '/' {
				d := vfFind(name[:i])
				if d == nil {
					return nil, vfErr("open", name, syscall.ENOENT)
				}
				if d.kind != vfDir {
					return nil, vfErr("open", name, syscall.ENOTDIR)
				}
				break
			}
		}
		n = &vfNode{name: name}
		vfNodes = append(vfNodes, n)
	} else {
		if flag&os.O_CREATE != 0 && flag&os.O_EXCL != 0 {
			return nil, vfErr("open", name, syscall.EEXIST)
		}
		if n.kind == vfDir && (flag&3 != os.O_RDONLY || flag&os.O_CREATE != 0) {
			return nil, vfErr("open", name, syscall.EISDIR)
		}
		if n.kind == vfRegular && flag&os.O_TRUNC != 0 && flag&3 != os.O_RDONLY {
			n.data = nil
		}
	}
	return vfAdd(new(os.File), n, name, flag), nil
}

// verif:replace (*os.File).Read
func vfRead(f *os.File, p []byte) (int, error) {
	o := vfOf(f)
	if f == nil || o == nil {
		return 0, os.ErrInvalid
	}
	if o.closed {
		return 0, &os.PathError{Op: "read", Path: o.name, Err: os.ErrClosed}
	}
	if !o.rd {
		return 0, vfErr("read", o.name, syscall.EBADF)
	}
	if len(p) == 0 {
		return 0, nil
	}
	switch o.node.kind {
	case vfDir:
		return 0, vfErr("read", o.name, syscall.EISDIR)
	case vfFull:
		for i := range p {
			p[i] = 0
		}
		return len(p), nil
	}
	if o.pos >= len(o.node.data) {
		return 0, io.EOF
	}
	k := copy(p, o.node.data[o.pos:])
	o.pos += k
	return k, nil
}

// verif:replace (*os.File).Write
func vfWrite(f *os.File, p []byte) (int, error) {
	o := vfOf(f)
	if f == nil || o == nil {
		return 0, os.ErrInvalid
	}
	if o.closed {
		return 0, &os.PathError{Op: "write", Path: o.name, Err: os.ErrClosed}
	}
	if !o.wr {
		return 0, vfErr("write", o.name, syscall.EBADF)
	}
	if o.node.kind == vfFull {
		if len(p) == 0 {
			return 0, nil
		}
		return 0, vfErr("write", o.name, syscall.ENOSPC)
	}
	if vfExited {
		return len(p), nil
	}
	n := o.node
	if o.app || n.kind == vfPipe {
		o.pos = len(n.data)
	}
	for o.pos > len(n.data) {
		n.data = append(n.data, 0)
	}
	k := copy(n.data[o.pos:], p)
	n.data = append(n.data, p[k:]...)
	o.pos += len(p)
	return len(p), nil
}

// verif:replace (*os.File).WriteString
func vfWriteString(f *os.File, s string) (int, error) { return vfWrite(f, []byte(s)) }

// verif:replace (*os.File).ReadFrom
func vfReadFrom(f *os.File, r io.Reader) (int64, error) {
	n := int64(0)
	b := make([]byte, 512)
	for {
		k, err := r.Read(b)
		if k > 0 {
			m, werr := vfWrite(f, b[:k])
			n += int64(m)
			if werr != nil {
				return n, werr
			}
		}
		if err == io.EOF {
			return n, nil
		}
		if err != nil {
			return n, err
		}
	}
}

// verif:replace (*os.File).WriteTo
func vfWriteTo(f *os.File, w io.Writer) (int64, error) {
	n := int64(0)
	b := make([]byte, 512)
	for {
		k, err := vfRead(f, b)
		if k > 0 {
			m, werr := w.Write(b[:k])
			n += int64(m)
			if werr != nil {
				return n, werr
			}
		}
		if err == io.EOF {
			return n, nil
		}
		if err != nil {
			return n, err
		}
	}
}

// verif:replace (*os.File).Truncate
func vfTruncate(f *os.File, size int64) error {
	o := vfOf(f)
	if f == nil || o == nil {
		return os.ErrInvalid
	}
	if o.closed {
		return &os.PathError{Op: "truncate", Path: o.name, Err: os.ErrClosed}
	}
	if o.node.kind != vfRegular || !o.wr {
		return vfErr("truncate", o.name, syscall.EINVAL)
	}
	for len(o.node.data) < int(size) {
		o.node.data = append(o.node.data, 0)
	}
	o.node.data = o.node.data[:size]
	return nil
}

// verif:replace (*os.File).Seek
func vfSeek(f *os.File, off int64, whence int) (int64, error) {
	o := vfOf(f)
	if f == nil || o == nil {
		return 0, os.ErrInvalid
	}
	if o.node.kind == vfPipe {
		return 0, vfErr("seek", o.name, syscall.ESPIPE)
	}
	switch whence {
	case 1:
		off += int64(o.pos)
	case 2:
		off += int64(len(o.node.data))
	}
	if off < 0 {
		return 0, vfErr("seek", o.name, syscall.EINVAL)
	}
	o.pos = int(off)
	return off, nil
}

// verif:replace (*os.File).Close
func vfClose(f *os.File) error {
	o := vfOf(f)
	if f == nil || o == nil {
		return os.ErrInvalid
	}
	if o.closed {
		return &os.PathError{Op: "close", Path: o.name, Err: os.ErrClosed}
	}
	o.closed = true
	return nil
}

// verif:replace (*os.File).Sync
func vfSync(f *os.File) error {
	o := vfOf(f)
	if f == nil || o == nil {
		return os.ErrInvalid
	}
	if o.node.kind == vfPipe || o.node.kind == vfFull {
		return vfErr("sync", o.name, syscall.EINVAL)
	}
	return nil
}

// verif:replace (*os.File).Name
func vfName(f *os.File) string {
	if o := vfOf(f); o != nil {
		return o.name
	}
	return ""
}

// verif:replace (*os.File).Stat
func vfStat(f *os.File) (os.FileInfo, error) { return nil, errors.New("stat: not modelled") }

// verif:replace (*os.File).Chmod
func vfChmod(f *os.File, mode os.FileMode) error { return nil }

// verif:replace os.Chmod
func vfChmodName(name string, mode os.FileMode) error {
	if vfFind(name) == nil {
		return vfErr("chmod", name, syscall.ENOENT)
	}
	return nil
}

// verif:replace os.Remove
func vfRemove(name string) error {
	for i, n := range vfNodes {
		if n.name == name {
			vfNodes = append(append([]*vfNode{}, vfNodes[:i]...), vfNodes[i+1:]...)
			return nil
		}
	}
	return vfErr("remove", name, syscall.ENOENT)
}

// verif:replace os.Rename
func vfRename(from, to string) error {
	n := vfFind(from)
	t := vfFind(to)
	if n == nil {
		return &os.LinkError{Op: "rename", Old: from, New: to, Err: syscall.ENOENT}
	}
	if t != nil && t.kind == vfDir {
		return &os.LinkError{Op: "rename", Old: from, New: to, Err: syscall.EEXIST}
	}
	if t != nil && t != n {
		vfRemove(to)
	}
	n.name = to
	return nil
}

// verif:replace os.Truncate
func vfTruncateName(name string, size int64) error {
	f, err := vfOpenFile(name, os.O_WRONLY, 0)
	if err != nil {
		return err
	}
	return vfTruncate(f, size)
}

// verif:replace os.CreateTemp
func vfCreateTemp(dir, pattern string) (*os.File, error) {
	name := "tmp-" + string([]byte{byte('a' + len(vfNodes))})
	if dir != "" && dir != "." {
		name = dir + "/" + name
	}
	return vfOpenFile(name, os.O_RDWR|os.O_CREATE|os.O_EXCL, 0600)
}
