package r107

import (
	"time"
)

//json:strict
type With_Under struct {
	Next   [][]int32       `json:"12"`
	Prev   [3]TSliceI      `json:"prev"`
	Cc     [][]Sub         `json:"cc"`
	K2     []*float32      `json:"@t"`
	Übung  int64           `json:"ITEMS"`
	URL    []*TTime        `json:"really_quite_a_long_member_name_of_the_object"`
	Out    TArr8           `json:"key"`
	Length map[NStr]uint16 `json:"n_1"`
}

type NStr string

//json:json
type TArr8 [8]byte

//json:json
type TSliceI []int

//json:json
type TTime time.Time

//json:strict
type Sub struct {
	X int    `json:"x"`
	Y string `json:"y,omitempty"`
}
