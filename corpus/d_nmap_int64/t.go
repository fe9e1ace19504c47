package d_nmap_int64

//json:json
type D map[NStr]int64

type NStr string
