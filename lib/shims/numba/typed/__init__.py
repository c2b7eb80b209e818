List = list; Dict = dict
