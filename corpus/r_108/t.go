package r108

// lower108 is documented.
//
//json:json
type lower108 struct {
	URL  map[NStr]*int8  `json:"f0,required"`
	Out  []*float64      `json:"w"`
	Size []*TBytes       `json:"名"`
	Host [2]NI8          `json:"имя"`
	Note map[string]int8 `json:"createdAt"`
}

type NStr string

type NI8 int8

//json:json
type TBytes []byte
