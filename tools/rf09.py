from mut import *
C='        self.clear() # nothing is kept from a file read before\n'
L=[
('loop-clear','fast_summary_file.py',(C,"        for k in list(self.keys()):\n            del self[k]\n")),
('super-clear','fast_linearization_file.py',(C,"        super(FASTLinearizationFile, self).clear()\n")),
('dict-clear','flex_doc_file.py',(C,"        dict.clear(self)\n")),
('local','tecplot_file.py',(C+"        try:\n            read_tecplot(self.filename,self)\n","        self.clear()\n        try:\n            new = read_tecplot(self.filename)\n            self.update(new)\n")),
('ts-update','turbsim_file.py',("                self['u']    = u\n","                self.update({'u': u})\n")),
('rosco-zip','rosco_performance_file.py',("""        pitch, TSR, WS, Cp, Ct, Cq = load_from_txt(self.filename)
        self['pitch'] = pitch
        self['TSR']   = TSR
        self['WS']    = WS
        self['CP']    = Cp
        self['CT']    = Ct
        self['CQ']    = Cq
""","""        for key, val in zip(['pitch','TSR','WS','CP','CT','CQ'], load_from_txt(self.filename)):
            self[key] = val
""")),
('rosco-upd','rosco_performance_file.py',("""        pitch, TSR, WS, Cp, Ct, Cq = load_from_txt(self.filename)
        self['pitch'] = pitch
        self['TSR']   = TSR
        self['WS']    = WS
        self['CP']    = Cp
        self['CT']    = Ct
        self['CQ']    = Cq
""","""        keys = ('pitch','TSR','WS','CP','CT','CQ')
        self.update(dict(zip(keys, load_from_txt(self.filename))))
""")),
('mann-upd','mannbox_file.py',("""        self['dy']=dy
        self['dz']=dz
        self['y0']=y0
        self['z0']=z0
        self['zMid']=zMid
""","""        geom = dict(dy=dy, dz=dz)
        geom['y0'] = y0
        self.update(geom)
        self.update(z0=z0, zMid=zMid)
""")),
('init-reset','hawc2_dat_file.py',("        self.info  = {}\n        self.bHawc = False\n        try","        self._init_data()\n        try"),("    def _read(self):","    def _init_data(self):\n        for name, val in [('info', {}), ('bHawc', False)]:\n            setattr(self, name, val)\n\n    def _read(self):")),
('init-reset2','hawc2_dat_file.py',("            if res_file.FileFormat=='BHAWC_ASCII':\n                self.bHawc=True\n","            self.bHawc = (res_file.FileFormat=='BHAWC_ASCII')\n"),("        self.bHawc = False\n        try","        try")),
('info-local','hawc2_dat_file.py',("""            self.info['attribute_names'] = res_file.ChInfo[0]
            self.info['attribute_units'] = res_file.ChInfo[1]
            self.info['attribute_descr'] = res_file.ChInfo[2]
""","""            names, units, descr = res_file.ChInfo[0:3]
            self.info = {'attribute_names':names, 'attribute_units':units, 'attribute_descr':descr}
""")),
('csv-opts','csv_file.py',("        self.sep, self.colNames, self.commentChar, self.commentLines, self.colNamesLine = self._options\n","        for name, value in zip(['sep','colNames','commentChar','commentLines','colNamesLine'], self._options):\n            setattr(self, name, value)\n")),
('csv-opts2','csv_file.py',("        self.sep, self.colNames, self.commentChar, self.commentLines, self.colNamesLine = self._options\n","        self.__dict__.update(zip(('sep','colNames','commentChar','commentLines','colNamesLine'), self._options))\n")),
('data-helper','fast_input_file.py',("        self.data   = []\n        self.hasNodal=False\n        self.module = None\n        #with","        self.setData(filename=self.filename)\n        #with")),
('fixed','fast_input_file.py',("        if filename is None:\n            filename = self.filename\n        # The dedicated format of the previous file does not apply, it will be detected again\n        self._fixedfile = None\n        return self.basefile.read(filename)","        target = self.filename if filename is None else filename\n        self._fixedfile, base = None, self.basefile\n        return base.read(target)")),
('vtk-init','vtk_file.py',("        self._reset() # nothing is kept from a file read before\n","        VTKFile._reset(self)\n")),
('bm-local','bmodes_out_file.py',("            self['frequencies'] = []\n            self['mode_shapes'] = []\n","            freqs, shapes = [], []\n"),("                    self['frequencies'].append(","                    freqs.append("),("                    self['mode_shapes'].append(np.asarray(data).astype(float))\n","                    shapes.append(np.asarray(data).astype(float))\n            self['frequencies'] = freqs\n            self['mode_shapes'] = shapes\n")),
('bm-alias','bmodes_out_file.py',("            self['frequencies'] = []\n            self['mode_shapes'] = []\n","            freqs = self['frequencies'] = []\n            self['mode_shapes'] = []\n"),("                    self['frequencies'].append(","                    freqs.append(")),
('deck-adver','fast_input_deck.py',("        self.AD        = None\n        self.ADversion = ''\n","        self.AD, self.ADversion = None, ''\n")),
]
import sys
for n,f,*e in L:
    if len(sys.argv)>1 and n not in sys.argv[1:]: continue
    try: m(n,'C09',*[(f,)+x for x in e],quiet=True)
    except AssertionError as ex: print('ASSERT',n,str(ex)[:100])
