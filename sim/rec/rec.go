// Package rec is the replay-file format, shared by driver and worker.
package rec

import (
	"encoding/json"
	"os"
)

// Switch is one recorded scheduling decision: at global step Step the token
// went to task Task.
type Switch struct {
	Step uint64
	Task int32
}

// Violation is one broken invariant.
type Violation struct {
	Kind   string `json:"kind"`   // violation class
	Sig    string `json:"sig"`    // what identifies it (call site, field, operation)
	Detail string `json:"detail"` // human-readable
}

// Record is the replay file.
type Record struct {
	Property  string           `json:"property"`
	Scenario  string           `json:"scenario"`
	Seed      uint64           `json:"seed"`
	HashSeed  uint64           `json:"hash_seed"`
	Prefix    []uint64         `json:"prefix_episodes,omitempty"` // episodes run before it in the same process
	Streams   map[string][]int `json:"streams"`
	Switches  [][]Switch       `json:"switches,omitempty"`
	Violation Violation        `json:"violation"`
	Trace     []string         `json:"trace"`
	Note      string           `json:"note,omitempty"`
}

func (r *Record) Save(p string) error {
	b, err := json.Marshal(r)
	if err != nil {
		return err
	}
	return os.WriteFile(p, append(b, '\n'), 0o644)
}

// Mix is splitmix64.
func Mix(z uint64) uint64 {
	z += 0x9e3779b97f4a7c15
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}
