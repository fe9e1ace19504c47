package d_map_p_sub

//json:json
type D map[string]*Sub

//json:strict
type Sub struct {
	X int    `json:"x"`
	Y string `json:"y,omitempty"`
}
