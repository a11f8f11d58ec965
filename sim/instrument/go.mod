module verifinstrument

go 1.18
