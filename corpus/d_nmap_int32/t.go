package d_nmap_int32

//json:json
type D map[NStr]int32

type NStr string
