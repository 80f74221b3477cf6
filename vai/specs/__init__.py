ALL = ["categorical", "gaussian", "messages", "graphs", "factorised", "mixture", "sparse", "sigma", "errors", "nlg", "templates", "interface", "finite", "finmix", "sampling"]
