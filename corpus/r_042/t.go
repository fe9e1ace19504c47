package r42

//json:json
type HTTPReply42 struct {
	B      [][]NStr        `json:"f0"`
	QWERTY TStr            `json:"a.b,required"`
	Unit   map[NStr]int16  `json:"Y2"`
	Cc     map[string]NInt `json:"list,omitempty"`
}

type NStr string

type NInt int

//json:json
type TStr string
