package r97

// json: strict
type Msg struct {
	Next   int64             `json:"f0" default:"9223372036854775807"`
	Cc     [][]NInt          `json:"name"`
	B      map[NStr]uint64   `json:"x,omitempty"`
	Übung  [][]string        `json:"f3"`
	Port   [][]*bool         `json:"@t,omitempty"`
	QWERTY map[string]uint64 `json:"ITEMS"`
	Name   [1]int32          `json:"f6"`
}

type NStr string

type NInt int
