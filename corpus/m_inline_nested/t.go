package inline

type Deep struct {
	D1 int    `json:"d1"`
	D2 string `json:"d2,omitempty"`
}

type Mid struct {
	M1   bool `json:"m1"`
	Deep `json:",inline"`
	M2   []int `json:"m2"`
}

//json:strict
type T1 struct {
	A   int `json:"a"`
	Mid `json:",inline"`
	Z   *int `json:"z,omitempty"`
}

//json:json
type T2 struct {
	Deep `json:",inline"`
}

//json:strict
type T3 struct {
	Mid   `json:",inline"`
	Other `json:",inline"`
	Last  string `json:"last,required"`
}

type Other struct {
	O1 int8     `json:"o1" default:"3"`
	O2 []string `json:"o2,omitempty"`
	O3 *string  `json:"o3"`
}
