package d_nmap_tstr

//json:json
type D map[NStr]TStr

type NStr string

//json:json
type TStr string
