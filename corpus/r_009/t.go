package r9

//json:strict
type A9 struct {
	Host [2]int16           `json:"key,required"`
	A    map[string]NI8     `json:"v,omitempty"`
	X1   map[NStr]*bool     `json:"Title"`
	Note map[NStr]int16     `json:"f3"`
	Zz   *uint32            `json:"ITEMS"`
	URL  map[NStr]*int      `json:"f5,required"`
	Path [][]TStr           `json:"createdAt"`
	Last map[NStr]int       `json:"list"`
	Mode [][]Sub            `json:"len"`
	Meta map[NStr]TStr      `json:"id"`
	Val  map[string]*uint64 `json:"f10"`
	B    *NF32              `json:"data-set"`
	Data [16]float64        `json:"Y2"`
	Idx  map[string]uint    `json:"really_quite_a_long_member_name_of_the_object"`
	Rate map[NStr]NI8       `json:"x"`
}

type NStr string

type NF32 float32

type NI8 int8

//json:json
type TStr string

//json:strict
type Sub struct {
	X int    `json:"x"`
	Y string `json:"y,omitempty"`
}
