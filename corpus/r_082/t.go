package r82

//json:json
//json:strict
type Öffnung struct {
	Note   [][]TStr            `json:"note"`
	Data   [][]*string         `json:"data"`
	Cc     map[string]*float64 `json:"n_1,omitempty"`
	Y_z    [][]int16           `json:"имя,omitempty"`
	Length map[string]*int8    `json:"data-set"`
}

//json:json
type TStr string
