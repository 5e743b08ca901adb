package verifv

import (
	"errors"
	"io"
)

// ---- terminal: readline and colorable

// LineHook answers a prompt; nil means end of input.
var LineHook func(prompt string, hidden bool) (string, error)

// TermClosed counts closed terminals, CloseErr is returned by Close.
var (
	TermClosed  int
	CloseErr    error
	TermOpenErr error
	History     []string
)

func resetUI() {
	LineHook, TermClosed, CloseErr, TermOpenErr, History = nil, 0, nil, nil, nil
	CliFlags, CliCmd, CliPos = nil, "", nil
	terminal = nil
	for _, s := range subcommands {
		s.Used = false
	}
}

func Colorable_NewColorable(f *Os_File) io.Writer { return f }

var Readline_ErrInterrupt = errors.New("Interrupt")

// The completer follows the library's: a tree of words, some asked from a callback.
type Readline_DynamicCompleteFunc func(string) []string

type Readline_AutoCompleter interface {
	Do(line []rune, pos int) (newLine [][]rune, length int)
}
type Readline_PrefixCompleterInterface interface {
	Do(line []rune, pos int) (newLine [][]rune, length int)
	GetName() []rune
	GetChildren() []Readline_PrefixCompleterInterface
	SetChildren(children []Readline_PrefixCompleterInterface)
}
type Readline_PrefixCompleter struct {
	Name     []rune
	Dynamic  bool
	Callback Readline_DynamicCompleteFunc
	Children []Readline_PrefixCompleterInterface
}

func (p *Readline_PrefixCompleter) IsDynamic() bool { return p.Dynamic }
func (p *Readline_PrefixCompleter) GetName() []rune { return p.Name }
func (p *Readline_PrefixCompleter) GetDynamicNames(line []rune) [][]rune {
	var names [][]rune
	for _, n := range p.Callback(string(line)) {
		names = append(names, []rune(n+" "))
	}
	return names
}
func (p *Readline_PrefixCompleter) GetChildren() []Readline_PrefixCompleterInterface { return p.Children }
func (p *Readline_PrefixCompleter) SetChildren(c []Readline_PrefixCompleterInterface) {
	p.Children = c
}
func (p *Readline_PrefixCompleter) Do(line []rune, pos int) ([][]rune, int) {
	return rlDo(p, line, pos, line)
}

func Readline_NewPrefixCompleter(pc ...Readline_PrefixCompleterInterface) *Readline_PrefixCompleter {
	return Readline_PcItem("", pc...)
}
func Readline_PcItem(name string, pc ...Readline_PrefixCompleterInterface) *Readline_PrefixCompleter {
	return &Readline_PrefixCompleter{Name: []rune(name + " "), Children: pc}
}
func Readline_PcItemDynamic(f Readline_DynamicCompleteFunc, pc ...Readline_PrefixCompleterInterface) *Readline_PrefixCompleter {
	return &Readline_PrefixCompleter{Callback: f, Dynamic: true, Children: pc}
}

func rlPrefix(r, prefix []rune) bool {
	if len(r) < len(prefix) {
		return false
	}
	for i, c := range prefix {
		if r[i] != c {
			return false
		}
	}
	return true
}

func rlDo(p Readline_PrefixCompleterInterface, line []rune, pos int, orig []rune) (newLine [][]rune, offset int) {
	line = line[:pos]
	for len(line) > 0 && (line[0] == ' ' || line[0] == '\t') {
		line = line[1:]
	}
	goNext := false
	var next Readline_PrefixCompleterInterface
	for _, child := range p.GetChildren() {
		names := [][]rune{nil}
		if d, ok := child.(*Readline_PrefixCompleter); ok && d.Dynamic {
			names = d.GetDynamicNames(orig)
		} else {
			names[0] = child.GetName()
		}
		for _, name := range names {
			if len(line) >= len(name) {
				if rlPrefix(line, name) {
					if len(line) == len(name) {
						newLine = append(newLine, []rune{' '})
					} else {
						newLine = append(newLine, name)
					}
					offset = len(name)
					next = child
					goNext = true
				}
			} else if rlPrefix(name, line) {
				newLine = append(newLine, name[len(line):])
				offset = len(line)
				next = child
			}
		}
	}
	if len(newLine) != 1 {
		return
	}
	for i := offset; i < len(line); i++ {
		if line[i] == ' ' {
			continue
		}
		rest := append([]rune(nil), line[i:]...)
		return rlDo(next, rest, len(rest), orig)
	}
	if goNext {
		return rlDo(next, nil, 0, orig)
	}
	return
}

// Complete is what the terminal offers after the line: the rests of the words.
func Complete(line string) (rests []string, back int) {
	if terminal == nil || terminal.config == nil || terminal.config.AutoComplete == nil {
		return nil, 0
	}
	r := []rune(line)
	got, back := terminal.config.AutoComplete.Do(r, len(r))
	for _, g := range got {
		rests = append(rests, string(g))
	}
	return rests, back
}

var terminal *Readline_Instance

type Readline_Config struct {
	Prompt                 string
	AutoComplete           Readline_AutoCompleter
	HistoryFile            string
	HistoryLimit           int
	DisableAutoSaveHistory bool
	HistorySearchFold      bool
	InterruptPrompt        string
	EOFPrompt              string
	Stdin                  io.Reader
	Stdout                 io.Writer
	Stderr                 io.Writer
	UniqueEditLine         bool
}

type Readline_Instance struct {
	prompt string
	config *Readline_Config
}

func Readline_NewEx(c *Readline_Config) (*Readline_Instance, error) {
	if TermOpenErr != nil {
		return nil, TermOpenErr
	}
	terminal = &Readline_Instance{prompt: c.Prompt, config: c}
	return terminal, nil
}
func (r *Readline_Instance) SetPrompt(p string) { r.prompt = p }
func (r *Readline_Instance) Readline() (string, error) {
	if LineHook == nil {
		return "", io.EOF
	}
	s, err := LineHook(r.prompt, false)
	if err == nil && r.config != nil && !r.config.DisableAutoSaveHistory {
		r.SaveHistory(s)
	}
	return s, err
}
func (r *Readline_Instance) ReadPassword(p string) ([]byte, error) {
	if LineHook == nil {
		return nil, io.EOF
	}
	s, err := LineHook(p, true)
	return []byte(s), err
}
func (r *Readline_Instance) SaveHistory(l string) error {
	History = append(History, l)
	if r.config != nil && r.config.HistoryFile != "" {
		Wrote = append(Wrote, Gone{r.config.HistoryFile, []byte(l)})
	}
	return nil
}
func (r *Readline_Instance) SetConfig(c *Readline_Config) *Readline_Config {
	old := r.config
	r.config = c
	return old
}
func (r *Readline_Instance) Close() error                          { TermClosed++; return CloseErr }

// ---- command line

var (
	// CliFlags are the long flags given, CliCmd the subcommand and CliPos its positional values.
	CliFlags    map[string]string
	CliCmd      string
	CliPos      []string
	subcommands []*Flaggy_Subcommand
)

type Flaggy_Subcommand struct {
	Name, Description string
	Used              bool
	strs              map[string]*string
	pos               []*string
}

type Flaggy_Parser struct {
	Flaggy_Subcommand
	AdditionalHelpAppend string
	ShowHelpWithHFlag    bool
	ShowHelpOnUnexpected bool
	bools                map[string]*bool
	subs                 []*Flaggy_Subcommand
}

func Flaggy_NewSubcommand(n string) *Flaggy_Subcommand {
	s := &Flaggy_Subcommand{Name: n, strs: map[string]*string{}}
	subcommands = append(subcommands, s)
	return s
}
func (s *Flaggy_Subcommand) String(p *string, short, long, desc string) { s.strs[long] = p }
func (s *Flaggy_Subcommand) AddPositionalValue(p *string, name string, rel int, required bool, desc string) {
	s.pos = append(s.pos, p)
}

func Flaggy_NewParser(n string) *Flaggy_Parser {
	p := &Flaggy_Parser{bools: map[string]*bool{}}
	p.Name = n
	p.strs = map[string]*string{}
	return p
}
func (p *Flaggy_Parser) Bool(b *bool, short, long, desc string)        { p.bools[long] = b }
func (p *Flaggy_Parser) DisableShowVersionWithVersion()                {}
func (p *Flaggy_Parser) SetHelpTemplate(t string) error                { return nil }
func (p *Flaggy_Parser) AttachSubcommand(s *Flaggy_Subcommand, n int)  { p.subs = append(p.subs, s) }
func (p *Flaggy_Parser) ShowHelp()                                     { Emit("help\n") }
func (p *Flaggy_Parser) Parse() error {
	for k, v := range CliFlags {
		if b := p.bools[k]; b != nil {
			*b = v != "false"
		}
		if s := p.strs[k]; s != nil {
			*s = v
		}
	}
	for _, s := range p.subs {
		if s.Name == CliCmd && CliCmd != "" {
			s.Used = true
			for k, v := range CliFlags {
				if d := s.strs[k]; d != nil {
					*d = v
				}
			}
			for i, v := range CliPos {
				if i < len(s.pos) {
					*s.pos[i] = v
				}
			}
		}
	}
	return nil
}
