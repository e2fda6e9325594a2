module vsim

go 1.26
