package d_nmap_p_sub

//json:json
type D map[NStr]*Sub

type NStr string

//json:strict
type Sub struct {
	X int    `json:"x"`
	Y string `json:"y,omitempty"`
}
