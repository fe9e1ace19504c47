package d_nmap_uint64

//json:json
type D map[NStr]uint64

type NStr string
