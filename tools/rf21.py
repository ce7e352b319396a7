from mut import *
import sys
F='fast_input_file.py'
P='C21'
L=[
('getid',("""        for i in range(len(self.data)):
            d = self.data[i]
            if d['label'].lower()==label.lower():
                return i
        return -1""","""        key = label.lower()
        return next((i for i, d in enumerate(self.data) if d['label'].lower()==key), -1)""")),
('getid2',("""        for i in range(len(self.data)):
            d = self.data[i]
            if d['label'].lower()==label.lower():
                return i
        return -1""","""        found = [i for i, d in enumerate(self.data) if d['label'].lower()==label.lower()]
        return found[0] if found else -1""")),
('getids',("""        I=[]
        # brute force search
        for i in range(len(self.data)):
            d = self.data[i]
            if d['label'].lower()==label.lower():
                I.append(i)
        if""","""        I = [i for i, d in enumerate(self.data) if d['label'].lower()==label.lower()]
        if""")),
('keys',("        return [ d['label'] for i,d in enumerate(self.data) if (not d['isComment']) and (i not in self._IComment)]","""        labels = []
        skip = self._IComment
        for i, d in enumerate(self.data):
            if d['isComment'] or i in skip:
                continue
            labels.append(d['label'])
        return labels""")),
('delloop',("""                del NUMTAB_FROM_VAL_DETECT[ii]  
                del NUMTAB_FROM_VAL_DIM_VAR[ii] 
                del NUMTAB_FROM_VAL_VARNAME[ii] 
                del NUMTAB_FROM_VAL_NHEADER[ii] 
                del NUMTAB_FROM_VAL_TYPE   [ii] 
                del NUMTAB_FROM_VAL_DETECT_L[ii]  
""","""                for table in (NUMTAB_FROM_VAL_DETECT, NUMTAB_FROM_VAL_DIM_VAR, NUMTAB_FROM_VAL_VARNAME, NUMTAB_FROM_VAL_NHEADER, NUMTAB_FROM_VAL_TYPE, NUMTAB_FROM_VAL_DETECT_L):
                    del table[ii]
""")),
('pop',("""                del NUMTAB_FROM_VAL_DETECT[ii]  
                del NUMTAB_FROM_VAL_DIM_VAR[ii] 
                del NUMTAB_FROM_VAL_VARNAME[ii] 
                del NUMTAB_FROM_VAL_NHEADER[ii] 
                del NUMTAB_FROM_VAL_TYPE   [ii] 
                del NUMTAB_FROM_VAL_DETECT_L[ii]  
""","""                NUMTAB_FROM_VAL_DETECT.pop(ii)
                NUMTAB_FROM_VAL_DIM_VAR.pop(ii)
                NUMTAB_FROM_VAL_VARNAME.pop(ii)
                NUMTAB_FROM_VAL_NHEADER.pop(ii)
                NUMTAB_FROM_VAL_TYPE.pop(ii)
                NUMTAB_FROM_VAL_DETECT_L.pop(ii)
""")),
('helper',("""                nTabLines=0
                if isinstance(d['tabDimVar'],int):
                    nTabLines = d['tabDimVar']
                else:
                    nTabLines = self[d['tabDimVar']]
""","""                nTabLines = self._nLines(d['tabDimVar'])
"""),("""    def _read(self):

        # --- Tables""","""    def _nLines(self, dim):
        return dim if isinstance(dim,int) else self[dim]

    def _read(self):

        # --- Tables""")),
('lines',("        for i in range(len(self.data)):\n            d=self.data[i]\n            if d['isComment']:","        for i, d in enumerate(self.data):\n            if d['isComment']:")),
('filhelper',("                s+='{} {} {}\\n'.format(d['value'][0],d['label'],d['descr']) # TODO?\n                s+='\\n'.join(fil for fil in d['value'][1:])","                s+=self._filString(d)"),("    def toString(self):\n        s=''\n        # Special","    @staticmethod\n    def _filString(d):\n        head = ' '.join([str(d['value'][0]), d['label'], d['descr']])\n        return '\\n'.join([head]+list(d['value'][1:]))\n\n    def toString(self):\n        s=''\n        # Special")),
('ifelse',("            if d['tabType'] in [TABTYPE_NUM_WITH_HEADER, TABTYPE_NUM_WITH_HEADERCOM, TABTYPE_NUM_NO_HEADER, TABTYPE_MIX_WITH_HEADER]:","            kind = d['tabType']\n            if kind==TABTYPE_NUM_WITH_HEADER or kind==TABTYPE_NUM_WITH_HEADERCOM or kind==TABTYPE_NUM_NO_HEADER or kind==TABTYPE_MIX_WITH_HEADER:")),
('kindmap',("""                if tab_type=='num':
                    d['tabType']   = TABTYPE_NUM_WITH_HEADER
                else:
                    d['tabType']   = TABTYPE_MIX_WITH_HEADER
                d['label']     = NUMTAB_FROM_VAL""","""                d['tabType'] = {'num': TABTYPE_NUM_WITH_HEADER}.get(tab_type, TABTYPE_MIX_WITH_HEADER)
                d['label']     = NUMTAB_FROM_VAL""")),
('end',("                i += nTabLines+nHeaders-1\n\n","                iEnd = i+nTabLines+nHeaders\n                i = iEnd-1\n\n")),
('rec',("                    dd = {'value':d['value'], 'label':d['label'], 'isComment':False, 'descr':d['descr'], 'tabType':TABTYPE_NOT_A_TAB}\n                    self.data.append(dd)","                    dd = dict(value=d['value'], label=d['label'], isComment=False, descr=d['descr'], tabType=TABTYPE_NOT_A_TAB)\n                    self.data += [dd]")),
('getDict',("def getDict():\n    return {'value':None, 'label':'', 'isComment':False, 'descr':'', 'tabType':TABTYPE_NOT_A_TAB}","def getDict(**kwargs):\n    d = dict.fromkeys(['value'])\n    d.update(label='', isComment=False, descr='', tabType=TABTYPE_NOT_A_TAB)\n    d.update(kwargs)\n    return d")),
]
for n,*e in L:
    if len(sys.argv)>1 and n not in sys.argv[1:]: continue
    try: m(n,P,*[(F,)+x for x in e],quiet=True)
    except AssertionError as x: print('ASSERT',x)
