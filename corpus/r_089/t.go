package r89

//json:json
type T9 struct {
	Val   []int8           `json:"a.b"`
	Übung map[NStr]float32 `json:"f1"`
	Total []float64        `json:"result"`
}

type NStr string
