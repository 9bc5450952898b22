package vx

// File is a file in the working directory of a run of the command-line tool.
type File struct {
	Name string
	Data string // content; for a symbolic link its target
	Mode uint32 // permission bits
	Kind int    // 0 regular file, 1 directory, 2 symbolic link
}

// Item is something that happens at standard input while the tool waits for input.
type Item struct {
	Data      string
	Raw       bool // typed while the terminal is in raw mode
	Line      bool // typed at a prompt that shows what is typed
	Interrupt bool // an interrupt (Ctrl+C) arrives
}

// Run describes one run of the command-line tool. When the script is over, standard input is at its
// end, or, if it is a terminal, the user presses Ctrl+C until the tool ends.
type Run struct {
	Args       []string
	Files      []File
	Stdin      []Item
	TTY        bool
	Width      uint16
	Sec, Nsec  int64 // the clock: the k-th reading (from 0) gives k seconds later
	Interleave bool  // explore thread interleavings
	RaceAt     int   // before the RaceAt-th file operation (from 1), Race appears unless something is there
	Race       File
	FullDisk   bool // writes to files fail
	FullStdout bool // writes to standard output fail
}

// Result is what a run left behind.
type Result struct {
	Exit    int
	Signal  bool // ended by an interrupt nobody handled
	Crashed bool // ended by a panic
	// about the terminal
	Restored bool // it is in the mode it was in
	Echoed   bool // it showed what was typed where it should not
	Stdout   string
	Stderr   string
	Files    []File
}

// Find returns the file of that name.
func (r *Result) Find(name string) (File, bool) {
	for _, f := range r.Files {
		if f.Name == name {
			return f, true
		}
	}
	return File{}, false
}
