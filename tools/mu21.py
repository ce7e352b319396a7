from mut import *
F='fast_input_file.py'
L=[
('short-list',("NUMTAB_FROM_VAL_NHEADER += [2            ]","NUMTAB_FROM_VAL_NHEADER += []")),
('swapped-dims',("'NHvCoef'  , 'NAxCoef'","'NAxCoef'  , 'NHvCoef'")),
('swapped-names',("'CableProp'      , 'RigidProp'","'RigidProp'      , 'CableProp'")),
('missing-del',("                    del NUMTAB_FROM_LAB_NOFFSET[ii] \n","")),
('missing-del2',("                del NUMTAB_FROM_VAL_TYPE   [ii] \n","")),
('kind-collision',("TABTYPE_NUM_NO_HEADER      = 4","TABTYPE_NUM_NO_HEADER      = 2")),
('no-branch',("            elif d['tabType']==TABTYPE_NUM_BEAMDYN:\n                # TODO use","            elif d['tabType']==-5:\n                # TODO use")),
('not-converted',("TABTYPE_NUM_NO_HEADER, TABTYPE_MIX_WITH_HEADER]:","TABTYPE_NUM_NO_HEADER]:")),
('keys-drop',("if (not d['isComment']) and (i not in self._IComment)]","if (not d['isComment']) and (d['tabType']!=TABTYPE_FIL)]")),
('advance',("                i += nTabLines+nHeaders-1\n","                i += nTabLines+1\n")),
('advance2',("                i += nTabLines+1-nOffset\n","                i += nTabLines+1\n")),
('advance3',("                i += nTabLines-1\n","                i += nTabLines\n")),
('no-suffix',("                d['label']  += labOffset\n","")),
('dim-no-suffix',("nTabLines = self[d['tabDimVar']+labOffset]","nTabLines = self[d['tabDimVar']]")),
('fil-label',("s+='{} {} {}\\n'.format(d['value'][0],d['label'],d['descr'])","s+='{} {}\\n'.format(d['value'][0],d['descr'])")),
('ext-toString',("for y in self['DampingMatrix'])","for y in self['StiffnessMatrix'])")),
('units-dropped',("                if d['tabUnits'] is not None:\n                    s+='\\n'\n                    s+='{}'.format(' '.join(['{:15s}'.format(s) for s in d['tabUnits']]))\n                if np.size","                if np.size")),
('type',("'mix'        ,'mix'            ,'mix'      ]","'num'        ,'mix'            ,'mix'      ]")),
('nheader',(",'Type'           ,'LineType' ]",",'LineType'           ,'Type' ]")),
('lower',("NUMTAB_FROM_LAB_DETECT_L = [s.lower() for s in NUMTAB_FROM_LAB_DETECT]","NUMTAB_FROM_LAB_DETECT_L = [s.lower() for s in NUMTAB_FROM_VAL_DETECT]")),
('removed-row',("['FoilNm' ,'AFNames']\n        FILTAB_FROM_LAB_DIM_VAR  = ['NumFoil','NumAFfiles']\n        FILTAB_FROM_LAB_VARNAME  = ['FoilNm' ,'AFNames']","['FoilNm']\n        FILTAB_FROM_LAB_DIM_VAR  = ['NumFoil']\n        FILTAB_FROM_LAB_VARNAME  = ['FoilNm']")),
('getitem',("                return i\n        return -1","                return -1\n        return -1")),
('comment-written',("            if d['isComment']:\n                s+='{}'.format(d['value'])","            if d['isComment']:\n                s+='!'")),
('missing-key',("                    d['tabUnits']       = None\n                self.data","                self.data")),
('list-descr',("s+='{} {} {}'.format(sList,d['label'],d['descr'])","s+='{} {}'.format(sList,d['label'])")),
('guyan-lost',("                    self.data.append(dd)\n","")),
('numalf-kind',("                    d['tabType']=TABTYPE_NOT_A_TAB\n                    self.data.append(d)\n                    # Creating","                    self.data.append(d)\n                    # Creating")),
]
import sys
for n,*e in L:
    if len(sys.argv)>1 and n not in sys.argv[1:]: continue
    m(n,'C21',*[(F,)+x for x in e])
if len(sys.argv)==1 or 'list-label' in sys.argv:
    m('list-label','C21',(F,"s+='{} {} {}'.format(sList,d['label'],d['descr'])","s+='{} {}'.format(sList,d['descr'])"))
