package main

import (
	_ "embed"
	"encoding/json"
	"fmt"
	"sort"
)

// The frozen MAVLink definitions used as oracle (see tools/gen_spec.py).

//go:embed spec/messages.json
var specMessagesJSON []byte

//go:embed spec/enums.json
var specEnumsJSON []byte

type SpecField struct {
	Go    string `json:"go"`
	Type  string `json:"type"`
	Array int    `json:"array"`
	Off   int    `json:"off"`
	Ext   bool   `json:"ext"`
	Wire  string `json:"wire"`
}

type SpecMsg struct {
	Pkg        string      `json:"pkg"`
	Go         string      `json:"go"`
	Dialect    string      `json:"dialect"`
	ID         int64       `json:"id"`
	Wire       string      `json:"wire"`
	Registered bool        `json:"registered"`
	CRC        int64       `json:"crc"`
	Match      string      `json:"crc_match"`
	BaseLen    int64       `json:"base_len"`
	FullLen    int64       `json:"full_len"`
	Min        int64       `json:"min"`
	Max        int64       `json:"max"`
	Variable   bool        `json:"variable"`
	Fields     []SpecField `json:"fields"`
}

type SpecEnum struct {
	Pkg     string      `json:"pkg"`
	Name    string      `json:"name"`
	Entries []SpecConst `json:"entries"`
}

type SpecConst struct {
	Go    string `json:"go"`
	Value int64  `json:"value"`
}

var specMsgs []*SpecMsg
var specEnums []*SpecEnum

var elemSize = map[string]int64{"uint8": 1, "int8": 1, "byte": 1, "uint16": 2, "int16": 2, "uint32": 4, "int32": 4,
	"float32": 4, "uint64": 8, "int64": 8, "float64": 8}

var cType = map[string]string{"uint8": "uint8_t", "int8": "int8_t", "byte": "char", "uint16": "uint16_t", "int16": "int16_t",
	"uint32": "uint32_t", "int32": "int32_t", "float32": "float", "uint64": "uint64_t", "int64": "int64_t", "float64": "double"}

func (f SpecField) Size() int64 {
	n := int64(f.Array)
	if n == 0 {
		n = 1
	}
	return n * elemSize[f.Type]
}

func (m *SpecMsg) HasExt() bool {
	for _, f := range m.Fields {
		if f.Ext {
			return true
		}
	}
	return false
}

func (m *SpecMsg) Name() string { return m.Pkg + "." + m.Go }

func x25(s []byte, crc uint16) uint16 {
	for _, b := range s {
		crc ^= uint16(b)
		for i := 0; i < 8; i++ {
			if crc&1 == 1 {
				crc = crc>>1 ^ 0x8408
			} else {
				crc >>= 1
			}
		}
	}
	return crc
}

// extra is the CRC extra byte that follows from the definition.
func (m *SpecMsg) extra() int64 {
	c := x25([]byte(m.Wire+" "), 0xffff)
	for _, f := range m.Fields {
		if f.Ext {
			continue
		}
		t := cType[f.Type]
		if m.Variable && f.Type == "byte" {
			t = "uint8_t"
		}
		c = x25([]byte(t+" "+f.Wire+" "), c)
		if f.Array > 0 {
			c = x25([]byte{byte(f.Array)}, c)
		}
	}
	return int64(c&0xff) ^ int64(c>>8)
}

func loadSpec() error {
	if err := json.Unmarshal(specMessagesJSON, &specMsgs); err != nil {
		return err
	}
	if err := json.Unmarshal(specEnumsJSON, &specEnums); err != nil {
		return err
	}
	sort.SliceStable(specMsgs, func(i, j int) bool { return specMsgs[i].Name() < specMsgs[j].Name() })
	// the table has to be consistent in itself
	for _, m := range specMsgs {
		var base, full int64
		last := int64(8)
		for _, f := range m.Fields {
			if full != int64(f.Off) {
				return fmt.Errorf("spec: %s.%s offset", m.Name(), f.Go)
			}
			full += f.Size()
			if !f.Ext {
				base = full
				if elemSize[f.Type] > last {
					return fmt.Errorf("spec: %s.%s order", m.Name(), f.Go)
				}
				last = elemSize[f.Type]
			}
		}
		if base != m.BaseLen || full != m.FullLen {
			return fmt.Errorf("spec: %s length", m.Name())
		}
		if m.Registered && m.extra() != m.CRC {
			return fmt.Errorf("spec: %s crc extra %d, definition gives %d", m.Name(), m.CRC, m.extra())
		}
	}
	return nil
}

func specByPkg(pkg string) []*SpecMsg {
	var r []*SpecMsg
	for _, m := range specMsgs {
		if m.Pkg == pkg {
			r = append(r, m)
		}
	}
	return r
}

func specPkgs() []string {
	var r []string
	for _, m := range specMsgs {
		if len(r) == 0 || r[len(r)-1] != m.Pkg {
			r = append(r, m.Pkg)
		}
	}
	return r
}
