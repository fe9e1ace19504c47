package d_nmap_tsub2

//json:json
type D map[NStr]TSub2

type NStr string

//json:strict
type Sub struct {
	X int    `json:"x"`
	Y string `json:"y,omitempty"`
}

//json:json
type TSub2 Sub
