package r27

//json:json
type T927 struct {
	Obj    [][]TMapI          `json:"f0"`
	Name   [][]*float32       `json:"x,omitempty"`
	Host   int64              `json:"value,omitempty" default:"1"`
	Val    NInt               `json:"really_quite_a_long_member_name_of_the_object,required"`
	X1     map[NStr]int32     `json:"x1,omitempty"`
	ID     map[NStr]uint8     `json:"id"`
	A      map[string]*int32  `json:"f6"`
	Items  []int              `json:"items,omitempty"`
	Prev   map[string]float64 `json:"list"`
	Y_z    [][]float32        `json:"len,required"`
	Code   *int32             `json:"f10,required"`
	URL    map[string]*Sub    `json:"$v,required"`
	Length []*NStr            `json:"kind_of,required"`
	B      [3]uint16          `json:"_p,omitempty"`
	Note   NF64               `json:"map"`
	Last   *NPtrI32           `json:"s"`
}

type NStr string

type NInt int

type NPtrI32 *int32

type NF64 float64

//json:json
type TMapI map[string]int

//json:strict
type Sub struct {
	X int    `json:"x"`
	Y string `json:"y,omitempty"`
}
