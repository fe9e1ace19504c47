package d_nmap_float64

//json:json
type D map[NStr]float64

type NStr string
