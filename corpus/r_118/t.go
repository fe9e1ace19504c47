package r118

//json:strict,json
type LongTypeNameOfTheMessage struct {
	Flag float32           `json:"createdAt"`
	B    map[string]*uint8 `json:"b,omitempty"`
	Host map[string]TStr   `json:"host"`
	Code *NF64             `json:"f3"`
	Next NF32              `json:"err,omitempty"`
	Last []byte            `json:"f5,omitempty"`
}

type NF32 float32

type NF64 float64

//json:json
type TStr string
