module mutate

go 1.20
