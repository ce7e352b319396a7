from mut import *
L=[
('no-clear-sum','fast_summary_file.py',("        self.clear() # nothing is kept from a file read before\n","")),
('no-clear-lin','fast_linearization_file.py',("        self.clear() # nothing is kept from a file read before\n","")),
('no-clear-doc','flex_doc_file.py',("        self.clear() # nothing is kept from a file read before\n","")),
('no-clear-tec','tecplot_file.py',("        self.clear() # nothing is kept from a file read before\n","")),
('no-clear-ts','turbsim_file.py',("        self.clear() # nothing is kept from a file read before\n","")),
('bhawc','hawc2_dat_file.py',("        self.info  = {}\n        self.bHawc = False\n        try","        self.info  = {}\n        try")),
('fixed','fast_input_file.py',("        self._fixedfile = None\n        return self.basefile","        return self.basefile")),
('options','csv_file.py',("        self.sep, self.colNames, self.commentChar, self.commentLines, self.colNamesLine = self._options\n","        self.sep, self.colNames, self.commentChar, _, self.colNamesLine = self._options\n")),
('vtk-noreset','vtk_file.py',("        self._reset() # nothing is kept from a file read before\n","")),
('vtk-one','vtk_file.py',("        self.cell_data_raw = {}\n","")),
('deck','fast_input_deck.py',("        self._reset() # nothing is kept from a deck read before\n","")),
('deck2','fast_input_deck.py',("        self.AD        = None\n",""),),
('data-append','fast_input_file.py',("        self.data   = []\n        self.hasNodal=False\n        self.module = None\n        #with","        self.hasNodal=False\n        self.module = None\n        #with")),
('hasNodal','fast_input_file.py',("        self.data   = []\n        self.hasNodal=False\n        self.module = None\n        #with","        self.data   = []\n        self.module = None\n        #with")),
('damping','flex_blade_file.py',("                else:\n                    Damping","                else:\n                    self.foo = 1\n                    Damping")),
('cache-df','hawc2_dat_file.py',("    def _toDataFrame(self):\n","    def _toDataFrame(self):\n        if getattr(self,'_df',None) is None:\n            self._df = self._build()\n        return self._df\n\n    def _build(self):\n")),
('freq','bmodes_out_file.py',("            self['frequencies'] = []\n","            self.setdefault('frequencies', [])\n")),
('mann','mannbox_file.py',("        self['zMid']=zMid\n","        if zMid is not None:\n            self['zMid']=zMid\n")),
('ctor','hawc2_st_file.py',("            self.read(filename,**kwargs)","            self.read(filename,**kwargs)\n            self.names=self.toDataFrame()")),
('ctor2','mannbox_file.py',("            self.read(filename=filename,**kwargs)","            self.read(filename=filename,**kwargs)\n            self['zMid']=0")),
('ds','bladed_out_file.py',("        dataSets={}\n","        dataSets=getattr(self,'dataSets',{})\n")),
]
import sys
for n,f,*e in L:
    if len(sys.argv)>1 and n not in sys.argv[1:]: continue
    try: m(n,'C09',*[(f,)+x for x in e])
    except AssertionError as ex: print('ASSERT',n,str(ex)[:100])
