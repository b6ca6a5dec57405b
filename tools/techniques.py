NOTE={}
