//go:build go1.22

package mc

import (
	"encoding/binary"
	"encoding/json"
	"os"
	"syscall"
)

// slotFile is a small shared file in which every worker notes the execution it
// is running, so that the supervisor can attribute a fatal crash of the process.
type slotFile struct {
	mem  []byte
	path string
}

const slotSize = 64 << 10
const slotCount = 16

func openSlots(path string) (*slotFile, error) {
	if path == "" {
		return nil, nil
	}
	f, err := os.OpenFile(path, os.O_RDWR|os.O_CREATE, 0600)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	if err := f.Truncate(slotSize * slotCount); err != nil {
		return nil, err
	}
	mem, err := syscall.Mmap(int(f.Fd()), 0, slotSize*slotCount, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	if err != nil {
		return nil, err
	}
	return &slotFile{mem: mem, path: path}, nil
}

func (s *slotFile) set(id int, unit string, prefix []int16) {
	if s == nil || id >= slotCount {
		return
	}
	m := s.mem[id*slotSize : (id+1)*slotSize]
	binary.LittleEndian.PutUint32(m, 0)
	n := copy(m[12:12+256], unit)
	binary.LittleEndian.PutUint32(m[4:], uint32(n))
	k := len(prefix)
	if k > (slotSize-300)/2 {
		k = (slotSize - 300) / 2
	}
	binary.LittleEndian.PutUint32(m[8:], uint32(k))
	for i := 0; i < k; i++ {
		binary.LittleEndian.PutUint16(m[300+2*i:], uint16(prefix[i]))
	}
	binary.LittleEndian.PutUint32(m, 1)
}

func (s *slotFile) clear(id int) {
	if s == nil || id >= slotCount {
		return
	}
	binary.LittleEndian.PutUint32(s.mem[id*slotSize:], 0)
}

type inflight struct {
	Unit    string
	Choices []int16
}

func (s *slotFile) read() []inflight {
	var out []inflight
	for id := 0; id < slotCount; id++ {
		m := s.mem[id*slotSize : (id+1)*slotSize]
		if binary.LittleEndian.Uint32(m) != 1 {
			continue
		}
		n := binary.LittleEndian.Uint32(m[4:])
		k := binary.LittleEndian.Uint32(m[8:])
		f := inflight{Unit: string(m[12 : 12+n]), Choices: make([]int16, k)}
		for i := range f.Choices {
			f.Choices[i] = int16(binary.LittleEndian.Uint16(m[300+2*i:]))
		}
		out = append(out, f)
	}
	return out
}

type fatalRecord struct {
	Kind    string
	Worker  int
	Unit    string
	Choices []int16
}

const exitFatal = 4

// fatal ends the process; the supervisor finds out which execution is to blame.
func (s *slotFile) fatal(kind string, worker int, unit string, choices []int16) {
	b, _ := json.Marshal(fatalRecord{kind, worker, unit, choices})
	if s != nil {
		os.WriteFile(s.path+".fatal", b, 0600)
	}
	os.Stderr.Write(append([]byte("FATAL "), append(b, '\n')...))
	os.Exit(exitFatal)
}
