package d_nmap_nf32

//json:json
type D map[NStr]NF32

type NStr string

type NF32 float32
