package d_nmap_nf64

//json:json
type D map[NStr]NF64

type NStr string

type NF64 float64
