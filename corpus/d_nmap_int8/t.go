package d_nmap_int8

//json:json
type D map[NStr]int8

type NStr string
