// C35: monitor for the confinement of the server. The real program is started
// with combinations of -chroot and -setuid in a user namespace of its own, which
// gives it the privileges it needs over nothing but scratch files. While it
// serves, the kernel's view of the process (root, working directory, user ids and
// capabilities of every thread) and what jobs and file requests can reach are
// compared with what was asked for. Where confinement is impossible the program
// must end without ever having answered.
package main

import (
	"bytes"
	"context"
	"fmt"
	"io"
	"net"
	"net/http"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"syscall"
	"time"

	"github.com/mlnoga/nightlight/internal/zzverif/kit"
)

var client = &http.Client{Timeout: 60 * time.Second}

const secret = "the-decoy-outside-3b7e"

type proc struct {
	cmd  *exec.Cmd
	out  bytes.Buffer
	addr string
	done chan error
}

func freePort(c *kit.C) int {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		c.Fatal("VK: %v", err)
	}
	defer l.Close()
	return l.Addr().(*net.TCPAddr).Port
}

// start the program in directory cwd. ns 0: no namespace, 1: only root is mapped, 2: many users are mapped
func start(c *kit.C, cwd string, ns int, cred *syscall.Credential, port int, args ...string) *proc {
	p := &proc{addr: fmt.Sprintf("127.0.0.1:%d", port), done: make(chan error, 1)}
	p.cmd = exec.Command(os.Getenv("VK_TOOL_NIGHTLIGHT"), append(append([]string{"-port", fmt.Sprint(port)}, args...), "serve")...)
	p.cmd.Dir = cwd
	p.cmd.Stdout, p.cmd.Stderr = &p.out, &p.out
	a := &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL, Credential: cred}
	if ns > 0 {
		a.Cloneflags = syscall.CLONE_NEWUSER
		a.UidMappings = []syscall.SysProcIDMap{{ContainerID: 0, HostID: 0, Size: 1}}
		a.GidMappings = []syscall.SysProcIDMap{{ContainerID: 0, HostID: 0, Size: 1}}
		if ns == 2 {
			a.UidMappings = []syscall.SysProcIDMap{{ContainerID: 0, HostID: 0, Size: 60000}}
			a.GidMappings = []syscall.SysProcIDMap{{ContainerID: 0, HostID: 0, Size: 60000}}
			a.GidMappingsEnableSetgroups = true
		}
	}
	p.cmd.SysProcAttr = a
	if err := p.cmd.Start(); err != nil {
		if ns == 2 { // not allowed to map other users here
			c.Count("namespaces with several users refused", 1)
			return nil
		}
		c.Fatal("VK: cannot start the program: %v", err)
	}
	go func() { p.done <- p.cmd.Wait() }()
	return p
}

func (p *proc) stop() {
	p.cmd.Process.Kill()
	<-p.done
}

func get(url string) (status int, body string, err error) {
	r, err := client.Get(url)
	if err != nil {
		return 0, "", err
	}
	defer r.Body.Close()
	b, _ := io.ReadAll(r.Body)
	return r.StatusCode, string(b), nil
}

func (p *proc) pong() bool {
	ctx, cancel := context.WithTimeout(context.Background(), 2*time.Second)
	defer cancel()
	q, _ := http.NewRequestWithContext(ctx, "GET", "http://"+p.addr+"/api/v1/ping", nil)
	r, err := http.DefaultClient.Do(q)
	if err != nil {
		return false
	}
	defer r.Body.Close()
	return r.StatusCode == 200
}

// up waits until the program answers (true) or ends (false)
func (p *proc) up(c *kit.C) bool {
	for x := 0; x < 1200; x++ {
		select {
		case err := <-p.done:
			p.done <- err
			return false
		default:
		}
		if p.pong() {
			return true
		}
		time.Sleep(50 * time.Millisecond)
	}
	c.Fatal("the program neither serves nor ends:\n%s", p.out.String())
	return false
}

func (p *proc) job(body string) (int, string) {
	r, err := client.Post("http://"+p.addr+"/api/v1/job", "application/json", strings.NewReader(body))
	if err != nil {
		return 0, err.Error()
	}
	defer r.Body.Close()
	b, _ := io.ReadAll(r.Body)
	return r.StatusCode, string(b)
}

func field(status, name string) string {
	for _, l := range strings.Split(status, "\n") {
		if strings.HasPrefix(l, name+":") {
			return strings.Join(strings.Fields(l[len(name)+1:]), " ")
		}
	}
	return ""
}

func write(c *kit.C, name, text string, mode os.FileMode) {
	os.MkdirAll(filepath.Dir(name), 0755)
	if err := os.WriteFile(name, []byte(text), mode); err != nil {
		c.Fatal("VK: %v", err)
	}
	os.Chmod(name, mode)
}

func image(c *kit.C, name string, v float32) {
	f := kit.Img(0, 6, 4, nil)
	for i := range f.Data {
		f.Data[i] = v + float32(i)
	}
	os.MkdirAll(filepath.Dir(name), 0755)
	if err := f.WriteFile(name); err != nil {
		c.Fatal("VK: %v", err)
	}
	os.Chmod(name, 0644)
}

// the tree: base/out is outside, base/jail inside
func tree(c *kit.C) (base string) {
	base = c.Dir()
	os.Chmod(base, 0755)
	write(c, base+"/out/secret.txt", secret, 0644)
	write(c, base+"/secret.txt", secret, 0644)
	image(c, base+"/out/secret.fits", 1000)
	image(c, base+"/secret.fits", 1000)
	j := base + "/jail"
	write(c, j+"/hello.txt", "hello from the jail", 0644)
	write(c, j+"/rootonly.txt", secret, 0600)
	image(c, j+"/in.fits", 1)
	image(c, j+"/rootonly.fits", 1000)
	os.Chmod(j+"/rootonly.fits", 0600)
	image(c, j+"/sub/in.fits", 2)
	os.MkdirAll(j+"/work", 0777)
	os.Chmod(j+"/work", 0777)
	os.Symlink(base+"/out/secret.txt", j+"/abs.txt")
	os.Symlink("../out/secret.txt", j+"/rel.txt")
	os.Symlink("../../../../../../../../.."+base+"/secret.txt", j+"/far.txt")
	os.Symlink(base+"/out/secret.fits", j+"/abs.fits")
	os.Symlink("../out/secret.fits", j+"/rel.fits")
	os.Symlink("/hello.txt", j+"/here.txt") // exists only if jail is the root
	os.Symlink("/in.fits", j+"/here.fits")
	os.Symlink(base+"/out", j+"/outdir")
	os.Symlink(j, base+"/link")
	return base
}

func inside(c *kit.C, p *proc, base string, uid int, what string) {
	jail, _ := filepath.EvalSymlinks(base + "/jail")
	pid := p.cmd.Process.Pid
	for n, want := range map[string]string{"root": jail, "cwd": jail} {
		l, err := os.Readlink(fmt.Sprintf("/proc/%d/%s", pid, n))
		if err != nil {
			c.Count("links of the process which are not readable", 1)
			continue
		}
		if l != want {
			c.Fatal("%s: %s of the serving process is %s, want %s", what, n, l, want)
		}
		c.Count("links of the process checked", 1)
	}
	u := "http://" + p.addr + "/api/v1/files/"
	for _, n := range []string{"hello.txt", "here.txt"} {
		if s, b, err := get(u + n); err != nil || s != 200 || b != "hello from the jail" {
			c.Fatal("%s: file %s inside is not served: status %d %.200s %v", what, n, s, b, err)
		}
	}
	for _, n := range []string{"abs.txt", "rel.txt", "far.txt", "outdir/secret.txt", "..%2fsecret.txt", "%2e%2e/secret.txt", "../secret.txt", "../out/secret.txt", ".%2e/out/secret.txt", "sub/../../secret.txt", strings.TrimPrefix(base, "/") + "/secret.txt"} {
		if _, b, err := get(u + n); err == nil && strings.Contains(b, secret) {
			c.Fatal("%s: file %s outside is served", what, n)
		}
		c.Count("requests for files outside", 1)
	}
	for i, n := range []string{"in.fits", "here.fits", "sub/in.fits", "abs.fits", "rel.fits", "outdir/secret.fits", "../secret.fits", base + "/secret.fits"} {
		o := fmt.Sprintf("work/o%d.fits", i)
		s, b := p.job(fmt.Sprintf(`{"type":"seq","steps":[{"type":"load","id":0,"fileName":%q},{"type":"save","filePattern":%q}]}`, n, o))
		_, err := os.Stat(filepath.Join(base, "jail", o))
		if i < 3 {
			if s != 200 || err != nil || strings.Contains(b, "Error") {
				c.Fatal("%s: job cannot load %s inside: status %d, %.500s, %v", what, n, s, b, err)
			}
			if st, ok := mustStat(c, filepath.Join(base, "jail", o)).Sys().(*syscall.Stat_t); ok && int(st.Uid) != uid {
				c.Fatal("%s: files are written as user %d", what, st.Uid)
			}
		} else if err == nil {
			c.Fatal("%s: job loads %s from outside", what, n)
		}
		c.Count("jobs", 1)
	}
	// nothing can be written outside
	for _, o := range []string{"../out/w.fits", base + "/out/w.fits", "outdir/w.fits", "../w.fits"} {
		p.job(fmt.Sprintf(`{"type":"seq","steps":[{"type":"load","id":0,"fileName":"in.fits"},{"type":"save","filePattern":%q}]}`, o))
		for _, d := range []string{"/out/w.fits", "/w.fits"} {
			if _, err := os.Stat(base + d); err == nil {
				c.Fatal("%s: job saving to %s leaves %s outside", what, o, d)
			}
		}
		c.Count("jobs", 1)
	}
}

func mustStat(c *kit.C, n string) os.FileInfo {
	s, err := os.Stat(n)
	if err != nil {
		c.Fatal("%v", err)
	}
	return s
}

// the process and all its threads run as uid without a way back
func user(c *kit.C, p *proc, uid int, what string) {
	ts, _ := filepath.Glob(fmt.Sprintf("/proc/%d/task/*/status", p.cmd.Process.Pid))
	if len(ts) == 0 {
		c.Fatal("VK: no threads of the process visible")
	}
	for _, t := range ts {
		b, err := os.ReadFile(t)
		if err != nil {
			continue
		}
		want := fmt.Sprintf("%d %d %d %d", uid, uid, uid, uid)
		if u := field(string(b), "Uid"); u != want {
			c.Fatal("%s: a thread runs with user ids %s, want %s", what, u, want)
		}
		if uid != 0 {
			for _, n := range []string{"CapEff", "CapPrm"} {
				if v := strings.Trim(field(string(b), n), "0"); v != "" {
					c.Fatal("%s: a thread keeps capabilities %s %s", what, n, v)
				}
			}
		}
		c.Count("threads checked", 1)
	}
	if uid != 0 {
		u := "http://" + p.addr + "/api/v1/files/"
		for _, n := range []string{"rootonly.txt"} {
			if _, b, err := get(u + n); err == nil && strings.Contains(b, secret) {
				c.Fatal("%s: a file only root may read is served", what)
			}
		}
		if _, b := p.job(`{"type":"seq","steps":[{"type":"load","id":0,"fileName":"rootonly.fits"},{"type":"save","filePattern":"work/r.fits"}]}`); !strings.Contains(b, "Error") {
			c.Fatal("%s: a job loads a file only root may read: %.300s", what, b)
		}
	}
}

func main() {
	kit.Main("C35", "one evaluation = one start of the program with a combination of confinement options; distinct = options x spelling of the directory x privileges x outcome", func(k *kit.K) {
		os.Chmod(k.Scratch, 0755)
		k.Case("setup", func(c *kit.C) {
			if os.Getuid() != 0 {
				c.Fatal("VK: not root")
			}
		})
		// spellings of the directory: from the working directory base or base/out
		sp := []struct{ cwd, arg string }{
			{"", "%/jail"}, {"", "jail"}, {"", "./jail/"}, {"out", "../jail"}, {"jail", "."}, {"jail/sub", ".."}, {"out", "%/jail/"}, {"", "%/link"}, {"out", "%/out/../jail"}, {"jail", "%/jail"},
		}
		uids := []int{-1, 0, 1, 1234, 59999}
		for i, s := range sp {
			for j, uid := range uids {
				if !k.Thorough() && (i+j)%2 == 1 && j != 3 {
					continue
				}
				k.Case(fmt.Sprintf("jail/%d/%d", i, uid), func(c *kit.C) {
					base := tree(c)
					defer c.K.CleanDir(base)
					args := []string{"-chroot", strings.ReplaceAll(s.arg, "%", base)}
					ns := 1
					if uid >= 0 {
						args = append(args, "-setuid", fmt.Sprint(uid))
					}
					if uid > 0 {
						ns = 2
					}
					p := start(c, filepath.Join(base, s.cwd), ns, nil, freePort(c), args...)
					if p == nil {
						return
					}
					defer p.stop()
					what := fmt.Sprintf("%q in %q", args, s.cwd)
					if !p.up(c) {
						c.Fatal("%s: the program ends: %s", what, p.out.String())
					}
					eff := uid
					if eff < 0 {
						eff = 0
					}
					inside(c, p, base, eff, what)
					user(c, p, eff, what)
					c.Seen("jail", s.cwd, s.arg, uid)
					c.Sample("%s: serves confined", what)
				})
			}
		}
		for _, uid := range []int{0, 1, 1234, 59999} {
			k.Case(fmt.Sprintf("user/%d", uid), func(c *kit.C) {
				base := tree(c)
				defer c.K.CleanDir(base)
				p := start(c, base+"/jail", 2, nil, freePort(c), "-setuid", fmt.Sprint(uid))
				if p == nil {
					return
				}
				defer p.stop()
				if !p.up(c) {
					c.Fatal("-setuid %d: the program ends: %s", uid, p.out.String())
				}
				user(c, p, uid, fmt.Sprintf("-setuid %d", uid))
				c.Seen("user", uid)
			})
		}
		// confinement which is not possible
		type no struct {
			name string
			ns   int
			cred *syscall.Credential
			args []string
		}
		nobody := &syscall.Credential{Uid: 1234, Gid: 1234, NoSetGroups: true}
		for _, n := range []no{
			{"missing", 1, nil, []string{"-chroot", "%/nothing"}},
			{"file", 1, nil, []string{"-chroot", "%/secret.txt"}},
			{"missing-user", 2, nil, []string{"-chroot", "%/nothing", "-setuid", "1234"}},
			{"unmapped", 1, nil, []string{"-setuid", "1234"}},
			{"unmapped-jail", 1, nil, []string{"-chroot", "%/jail", "-setuid", "1234"}},
			{"unprivileged", 0, nobody, []string{"-setuid", "0"}},
			{"unprivileged-jail", 0, nobody, []string{"-chroot", "%/jail"}},
			{"unprivileged-both", 0, nobody, []string{"-chroot", "%/jail", "-setuid", "1"}},
		} {
			k.Case("refused/"+n.name, func(c *kit.C) {
				base := tree(c)
				defer c.K.CleanDir(base)
				var args []string
				for _, a := range n.args {
					args = append(args, strings.ReplaceAll(a, "%", base))
				}
				os.Chmod(base+"/jail/work", 0777)
				p := start(c, base+"/jail/work", n.ns, n.cred, freePort(c), append([]string{"-log", ""}, args...)...)
				if p == nil {
					return
				}
				if p.up(c) {
					p.stop()
					c.Fatal("%q: serves although that is not possible:\n%s", args, p.out.String())
				}
				if p.cmd.ProcessState.ExitCode() == 0 {
					c.Fatal("%q: exit status 0 although that is not possible:\n%s", args, p.out.String())
				}
				c.Seen("refused", n.name)
				c.Sample("%q: refused with status %d", n.args, p.cmd.ProcessState.ExitCode())
			})
		}
		k.Case("plain", func(c *kit.C) {
			base := tree(c)
			defer c.K.CleanDir(base)
			port := freePort(c)
			p := start(c, base+"/jail", 0, nil, port)
			defer p.stop()
			if !p.up(c) {
				c.Fatal("the program ends: %s", p.out.String())
			}
			if s, b, err := get("http://" + p.addr + "/api/v1/files/hello.txt"); err != nil || s != 200 || b != "hello from the jail" {
				c.Fatal("file is not served: status %d %.200s %v", s, b, err)
			}
			c.Seen("plain")
			// a second one cannot listen on the same port
			q := start(c, base+"/jail", 0, nil, port)
			select {
			case <-q.done:
				if q.cmd.ProcessState.ExitCode() == 0 {
					c.Fatal("a server whose port is taken ends with exit status 0:\n%s", q.out.String())
				}
				c.Seen("port taken")
			case <-time.After(60 * time.Second):
				q.stop()
				c.Fatal("a server whose port is taken does not end")
			}
			if !p.pong() {
				c.Fatal("the server stopped answering")
			}
		})
	})
}
