package r39

//json:strict
type T939 struct {
	Val  *TStr          `json:"w"`
	A    [][]*float32   `json:"a,required"`
	Idx  []*Sub         `json:"idx"`
	Rate NMapI          `json:"rate"`
	B    map[NStr]int32 `json:"createdAt"`
	Tags TMapS          `json:"f5,omitempty"`
	Flag [][]bool       `json:"flag"`
}

type NStr string

type NMapI map[string]int

//json:json
type TMapS map[string]Sub

//json:json
type TStr string

//json:strict
type Sub struct {
	X int    `json:"x"`
	Y string `json:"y,omitempty"`
}
