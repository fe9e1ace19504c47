package d_nmap_float32

//json:json
type D map[NStr]float32

type NStr string
