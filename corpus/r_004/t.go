package r4

// json:strict
type T9 struct {
	Flag   map[NStr]NI32 `json:"createdAt,omitempty"`
	Übung  NI32          `json:"Y2"`
	Rate   NBool         `json:"f2"`
	Zz     [3]NF32       `json:"f3"`
	B      [][]*string   `json:"f4"`
	QWERTY [][]int32     `json:"$v"`
	Last   int64         `json:"f6"`
	Val    [][]*NStr     `json:"val"`
}

type NStr string

type NI32 int32

type NF32 float32

type NBool bool
