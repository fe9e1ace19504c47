package d_nmap_int

//json:json
type D map[NStr]int

type NStr string
