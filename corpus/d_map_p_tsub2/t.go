package d_map_p_tsub2

//json:json
type D map[string]*TSub2

//json:strict
type Sub struct {
	X int    `json:"x"`
	Y string `json:"y,omitempty"`
}

//json:json
type TSub2 Sub
