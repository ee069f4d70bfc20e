package template

// model

func zz_model_Must(t *Template, err error) *Template {
	if err != nil {
		panic(err)
	}
	return t
}
