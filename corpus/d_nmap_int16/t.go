package d_nmap_int16

//json:json
type D map[NStr]int16

type NStr string
