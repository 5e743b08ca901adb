package verifv

import (
	"errors"
	"io"
	"os/exec"
	"syscall"

	"golang.org/x/crypto/ssh"
)

// Env is the process environment.
var Env map[string]string

// EnvAll, when not empty, is the value of every variable not in Env.
var EnvAll string

func Os_Getenv(k string) string {
	v, _ := Os_LookupEnv(k)
	return v
}
func Os_LookupEnv(k string) (string, bool) {
	v, ok := Env[k]
	if !ok && EnvAll != "" {
		return EnvAll, true
	}
	return v, ok
}

// ExecHook runs a command to completion (Run, Output, Wait).
var ExecHook func(c *Exec_Cmd) error

// StartHook is called by Start.
var StartHook func(c *Exec_Cmd) error

// Programs are the programs LookPath finds.
var Programs map[string]bool

func Exec_LookPath(p string) (string, error) {
	if Programs[p] {
		return "/usr/bin/" + p, nil
	}
	return "", &exec.Error{Name: p, Err: exec.ErrNotFound}
}

type Exec_Cmd struct {
	Path        string
	Args        []string
	Env         []string
	Dir         string
	Stdin       io.Reader
	Stdout      io.Writer
	Stderr      io.Writer
	SysProcAttr *syscall.SysProcAttr
	Process     *Os_Process
	// In and Out back StdinPipe and StdoutPipe.
	In  io.WriteCloser
	Out io.ReadCloser
}

func Exec_Command(name string, args ...string) *Exec_Cmd {
	return &Exec_Cmd{Path: name, Args: append([]string{name}, args...)}
}

// PipeIn and PipeOut are used by the next command's pipes.
var PipeIn io.WriteCloser
var PipeOut io.ReadCloser

func (c *Exec_Cmd) StdinPipe() (io.WriteCloser, error) {
	if PipeIn == nil {
		return nil, ErrInjected
	}
	c.In = PipeIn
	return c.In, nil
}

func (c *Exec_Cmd) StdoutPipe() (io.ReadCloser, error) {
	if PipeOut == nil {
		return nil, ErrInjected
	}
	c.Out = PipeOut
	return c.Out, nil
}

func (c *Exec_Cmd) Start() error {
	if StartHook != nil {
		return StartHook(c)
	}
	return nil
}

func (c *Exec_Cmd) Wait() error {
	if ExecHook != nil {
		return ExecHook(c)
	}
	return nil
}

func (c *Exec_Cmd) Run() error {
	if err := c.Start(); err != nil {
		return err
	}
	return c.Wait()
}

type outBuf struct{ b []byte }

func (o *outBuf) Write(p []byte) (int, error) { o.b = append(o.b, p...); return len(p), nil }

func (c *Exec_Cmd) Output() ([]byte, error) {
	if c.Stdout != nil {
		return nil, errors.New("exec: Stdout already set")
	}
	o := &outBuf{}
	c.Stdout = o
	err := c.Run()
	return o.b, err
}

func (c *Exec_Cmd) CombinedOutput() ([]byte, error) {
	o := &outBuf{}
	c.Stdout, c.Stderr = o, o
	err := c.Run()
	return o.b, err
}

type Os_Process struct{ Pid int }

func (p *Os_Process) Release() error { return nil }
func (p *Os_Process) Kill() error    { return nil }

type Os_ProcAttr struct {
	Dir   string
	Env   []string
	Files []*Os_File
	Sys   *syscall.SysProcAttr
}

// Started is every process started on its own.
var Started [][]string

// StartFault lets starting one fail.
var StartFault bool

func Os_StartProcess(name string, argv []string, attr *Os_ProcAttr) (*Os_Process, error) {
	if StartFault {
		return nil, ErrInjected
	}
	Started = append(Started, argv)
	return &Os_Process{1}, nil
}

// Exec_ExitError is a process that ended with a status.
type Exec_ExitError struct{ Code int }

func (e *Exec_ExitError) Error() string { return "exit status" }
func (e *Exec_ExitError) ExitCode() int { return e.Code }

// ---- ssh

// SSHSession models one session.
type Ssh_Session struct {
	Cmd string
	c   *Ssh_Client
}

type Ssh_Client struct{ Addr string }

// SSH behaviour of the next connection: each hook may be nil.
var (
	SSHDial    func(network, addr string, cfg *ssh.ClientConfig) error
	SSHIn      io.WriteCloser
	SSHOut     io.Reader
	SSHStart   func(cmd string) error
	SSHWait    func() error
	SSHClose   func() error
	SSHSession func() error
	SSHPipes   func(which int) error
	SSHCmds    []string
	SSHClosed  int
)

func Ssh_Dial(network, addr string, cfg *ssh.ClientConfig) (*Ssh_Client, error) {
	if SSHDial != nil {
		if err := SSHDial(network, addr, cfg); err != nil {
			return nil, err
		}
	}
	return &Ssh_Client{Addr: addr}, nil
}

func (c *Ssh_Client) NewSession() (*Ssh_Session, error) {
	if SSHSession != nil {
		if err := SSHSession(); err != nil {
			return nil, err
		}
	}
	return &Ssh_Session{c: c}, nil
}

func (c *Ssh_Client) Close() error {
	SSHClosed++
	if SSHClose != nil {
		return SSHClose()
	}
	return nil
}

func (s *Ssh_Session) StdinPipe() (io.WriteCloser, error) {
	if SSHPipes != nil {
		if err := SSHPipes(0); err != nil {
			return nil, err
		}
	}
	return SSHIn, nil
}

func (s *Ssh_Session) StdoutPipe() (io.Reader, error) {
	if SSHPipes != nil {
		if err := SSHPipes(1); err != nil {
			return nil, err
		}
	}
	return SSHOut, nil
}

func (s *Ssh_Session) Start(cmd string) error {
	SSHCmds = append(SSHCmds, cmd)
	if SSHStart != nil {
		return SSHStart(cmd)
	}
	return nil
}

func (s *Ssh_Session) Wait() error {
	if SSHWait != nil {
		return SSHWait()
	}
	return nil
}

func (s *Ssh_Session) Close() error { return nil }

func (s *Ssh_Session) Run(cmd string) error {
	if err := s.Start(cmd); err != nil {
		return err
	}
	return s.Wait()
}

// ScpRecv and ScpSend replace scpsync in package main.
var (
	ScpRecv func(hostport string, config *ssh.ClientConfig, filename string) ([]byte, error)
	ScpSend func(hostport string, config *ssh.ClientConfig, filename string, mode int, contents []byte) error
)

func Scpsync_Recv(hostport string, config *ssh.ClientConfig, filename string) ([]byte, error) {
	return ScpRecv(hostport, config, filename)
}

func Scpsync_Send(hostport string, config *ssh.ClientConfig, filename string, mode int, contents []byte) error {
	return ScpSend(hostport, config, filename, mode, contents)
}
