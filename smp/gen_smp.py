#!/usr/bin/env python3
# one-shot writer of the stand-in SMP headers
import os,re
OUT='/verif/smp/Smp'
def w(path, includes, fwd, body, ns='Smp'):
    p=os.path.join(OUT,path+'.h'); os.makedirs(os.path.dirname(p),exist_ok=True)
    guard='VERIF_SMP_'+re.sub(r'[^A-Z0-9]','_',path.upper())+'_H_'
    s='// Stand-in for the ECSS-E-ST-40-07C header <Smp/%s.h>, written for the checks in /verif.\n'%path
    s+='#ifndef %s\n#define %s\n\n'%(guard,guard)
    for i in includes: s+='#include <%s>\n'%i
    if includes: s+='\n'
    if fwd:
        bynsp={}
        for f in fwd:
            n,_,c=f.rpartition('::')
            bynsp.setdefault(n or 'Smp',[]).append(c)
        for n,cs in bynsp.items():
            s+='namespace %s {\n'%n+''.join('%s;\n'%(('class '+c) if not c.startswith('enum') else c) for c in cs)+'} // namespace %s\n'%n
        s+='\n'
    s+='namespace %s {\n%s\n} // namespace %s\n\n#endif\n'%(ns,body.strip('\n'),ns)
    open(p,'w').write(s)
def S(*n): return ['Smp/%s.h'%x for x in n]

# ---------------------------------------------------------------- primitive types
w('PrimitiveTypes',['algorithm','array','cstddef','cstdint','cstring','functional','iosfwd','iterator','map','memory','string','string_view','type_traits','utility','vector'],[],'''
using Char8 = char;
using Bool = bool;
using Int8 = std::int8_t;
using UInt8 = std::uint8_t;
using Int16 = std::int16_t;
using UInt16 = std::uint16_t;
using Int32 = std::int32_t;
using UInt32 = std::uint32_t;
using Int64 = std::int64_t;
using UInt64 = std::uint64_t;
using Float32 = float;
using Float64 = double;
using Duration = Int64;
using DateTime = Int64;
using String8 = const char *;

enum class PrimitiveTypeKind : Int32 {
  PTK_None = 0, PTK_Char8 = 1, PTK_Bool = 2, PTK_Int8 = 3, PTK_UInt8 = 4,
  PTK_Int16 = 5, PTK_UInt16 = 6, PTK_Int32 = 7, PTK_UInt32 = 8, PTK_Int64 = 9,
  PTK_UInt64 = 10, PTK_Float32 = 11, PTK_Float64 = 12, PTK_Duration = 13,
  PTK_DateTime = 14, PTK_String8 = 15
};
std::ostream &operator<<(std::ostream &os, const PrimitiveTypeKind &kind);
''')
def enum(path,name,vals,ns='Smp'):
    w(path,S('PrimitiveTypes')+['iosfwd'],[],'enum class %s : ::Smp::Int32 {\n%s\n};\nstd::ostream &operator<<(std::ostream &os, const %s &kind);'%(name,',\n'.join('  %s = %d'%(v,i) for i,v in enumerate(vals)),name),ns)
enum('AccessKind','AccessKind',['AK_ReadWrite','AK_ReadOnly','AK_WriteOnly'])
enum('ViewKind','ViewKind',['VK_None','VK_Debug','VK_Expert','VK_All'])
enum('ComponentStateKind','ComponentStateKind',['CSK_Created','CSK_Publishing','CSK_Configured','CSK_Connected','CSK_Disconnected'])
enum('SimulatorStateKind','SimulatorStateKind',['SSK_Building','SSK_Connecting','SSK_Initialising','SSK_Standby','SSK_Executing','SSK_Storing','SSK_Restoring','SSK_Reconnecting','SSK_Exiting','SSK_Aborting'])
enum('Publication/ParameterDirectionKind','ParameterDirectionKind',['PDK_In','PDK_Out','PDK_InOut','PDK_Return'],'Smp::Publication')
enum('Services/TimeKind','TimeKind',['TK_SimulationTime','TK_MissionTime','TK_EpochTime','TK_ZuluTime'],'Smp::Services')

# ---------------------------------------------------------------- Uuid
uu=['Void','Char8','Bool','Int8','UInt8','Int16','UInt16','Int32','UInt32','Int64','UInt64','Float32','Float64','Duration','DateTime','String8','PrimitiveTypeKind','Uuid','AccessKind','ViewKind','ComponentStateKind','SimulatorStateKind','ParameterDirectionKind','TimeKind','EventId','LogMessageKind','AnySimple']
w('Uuid',S('PrimitiveTypes')+['array','cstddef','cstdint','functional','iosfwd'],[],'''
struct Uuid {
  std::uint32_t Data1;
  std::array<std::uint16_t, 3> Data2;
  std::array<std::uint8_t, 6> Data3;

  constexpr Uuid() : Data1{0}, Data2{{0, 0, 0}}, Data3{{0, 0, 0, 0, 0, 0}} {}
  constexpr Uuid(std::uint32_t d1, std::array<std::uint16_t, 3> d2,
                 std::array<std::uint8_t, 6> d3)
      : Data1{d1}, Data2{d2}, Data3{d3} {}
  constexpr Uuid(std::uint32_t d1, std::uint16_t d21, std::uint16_t d22,
                 std::uint16_t d23, std::uint64_t d3)
      : Data1{d1}, Data2{{d21, d22, d23}},
        Data3{{static_cast<std::uint8_t>((d3 >> 40U) & 0xFFU),
               static_cast<std::uint8_t>((d3 >> 32U) & 0xFFU),
               static_cast<std::uint8_t>((d3 >> 24U) & 0xFFU),
               static_cast<std::uint8_t>((d3 >> 16U) & 0xFFU),
               static_cast<std::uint8_t>((d3 >> 8U) & 0xFFU),
               static_cast<std::uint8_t>(d3 & 0xFFU)}} {}
  Uuid(const char *value);

  bool operator<(const Uuid &other) const;
  bool operator==(const Uuid &other) const;
  bool operator!=(const Uuid &other) const;
};
std::ostream &operator<<(std::ostream &os, const Uuid &uuid);

struct Uuids {
'''+'\n'.join('  static constexpr Uuid Uuid_%s{0x4d1f0c%02xU, 0x9a3bU, 0x4c5dU, 0x8e6fU, 0x5157ac09b%03xULL};'%(n,i+1,i+1) for i,n in enumerate(uu))+'''
};
''')
# fix namespace std::hash
p=OUT+'/Uuid.h'; s=open(p).read()
s=s.replace('} // namespace Smp\n\n#endif','''} // namespace Smp

namespace std {
template <> struct hash<::Smp::Uuid> {
  size_t operator()(const ::Smp::Uuid &uuid) const;
};
} // namespace std

#endif'''); open(p,'w').write(s)

# ---------------------------------------------------------------- AnySimple
w('AnySimple',S('PrimitiveTypes')+['iosfwd'],[],'''
class AnySimple {
public:
  AnySimple();
  explicit AnySimple(PrimitiveTypeKind kind);
  AnySimple(const AnySimple &other);
  AnySimple(AnySimple &&other);
  template <typename T> AnySimple(PrimitiveTypeKind kind, T v) : AnySimple() {
    SetValue(kind, v);
  }
  ~AnySimple();
  AnySimple &operator=(const AnySimple &other);
  AnySimple &operator=(AnySimple &&other);

  void SetValue(PrimitiveTypeKind kind, Bool v);
  void SetValue(PrimitiveTypeKind kind, Char8 v);
  void SetValue(PrimitiveTypeKind kind, String8 v);
  void SetValue(PrimitiveTypeKind kind, UInt8 v);
  void SetValue(PrimitiveTypeKind kind, UInt16 v);
  void SetValue(PrimitiveTypeKind kind, UInt32 v);
  void SetValue(PrimitiveTypeKind kind, UInt64 v);
  void SetValue(PrimitiveTypeKind kind, Int8 v);
  void SetValue(PrimitiveTypeKind kind, Int16 v);
  void SetValue(PrimitiveTypeKind kind, Int32 v);
  void SetValue(PrimitiveTypeKind kind, Int64 v);
  void SetValue(PrimitiveTypeKind kind, Float32 v);
  void SetValue(PrimitiveTypeKind kind, Float64 v);

  operator Bool() const;
  operator Char8() const;
  operator String8() const;
  operator UInt8() const;
  operator UInt16() const;
  operator UInt32() const;
  operator UInt64() const;
  operator Int8() const;
  operator Int16() const;
  operator Int32() const;
  operator Int64() const;
  operator Float32() const;
  operator Float64() const;

  String8 MoveString();
  PrimitiveTypeKind GetType() const noexcept;

  bool operator==(const AnySimple &other) const;
  bool operator!=(const AnySimple &other) const;

  PrimitiveTypeKind type;
  union {
    Char8 char8Value;
    Bool boolValue;
    Int8 int8Value;
    UInt8 uInt8Value;
    Int16 int16Value;
    UInt16 uInt16Value;
    Int32 int32Value;
    UInt32 uInt32Value;
    Int64 int64Value;
    UInt64 uInt64Value;
    Float32 float32Value;
    Float64 float64Value;
    Duration durationValue;
    DateTime dateTimeValue;
    String8 string8Value;
  } value;
};
std::ostream &operator<<(std::ostream &os, const AnySimple &obj);
''')
w('AnySimpleArray',S('AnySimple'),[],'using AnySimpleArray = AnySimple *;')

# ---------------------------------------------------------------- objects
w('IObject',S('PrimitiveTypes'),[],'''
class IObject {
public:
  virtual ~IObject() noexcept = default;
  virtual String8 GetName() const = 0;
  virtual String8 GetDescription() const = 0;
  virtual IObject *GetParent() const = 0;
};
''')
w('CollectionIterator',['cstddef','iterator'],[],'''
template <typename T> class ICollection;
template <typename T> class CollectionIterator {
public:
  using iterator_category = std::random_access_iterator_tag;
  using value_type = T *;
  using difference_type = std::ptrdiff_t;
  using pointer = T *;
  using reference = T *;

  CollectionIterator() noexcept : _collection(nullptr), _index(0) {}
  CollectionIterator(const ICollection<T> &collection, std::size_t index)
      : _collection(&collection), _index(index) {}
  T *operator*() const { return _collection->at(_index); }
  T *operator->() const { return _collection->at(_index); }
  T *operator[](difference_type n) const {
    return _collection->at(_index + static_cast<std::size_t>(n));
  }
  CollectionIterator &operator++() { ++_index; return *this; }
  CollectionIterator operator++(int) { auto r = *this; ++_index; return r; }
  CollectionIterator &operator--() { --_index; return *this; }
  CollectionIterator operator--(int) { auto r = *this; --_index; return r; }
  CollectionIterator &operator+=(difference_type n) { _index += static_cast<std::size_t>(n); return *this; }
  CollectionIterator &operator-=(difference_type n) { _index -= static_cast<std::size_t>(n); return *this; }
  CollectionIterator operator+(difference_type n) const { auto r = *this; return r += n; }
  CollectionIterator operator-(difference_type n) const { auto r = *this; return r -= n; }
  difference_type operator-(const CollectionIterator &o) const {
    return static_cast<difference_type>(_index) - static_cast<difference_type>(o._index);
  }
  bool operator==(const CollectionIterator &o) const { return _index == o._index && _collection == o._collection; }
  bool operator!=(const CollectionIterator &o) const { return !(*this == o); }
  bool operator<(const CollectionIterator &o) const { return _index < o._index; }
  bool operator>(const CollectionIterator &o) const { return _index > o._index; }
  bool operator<=(const CollectionIterator &o) const { return _index <= o._index; }
  bool operator>=(const CollectionIterator &o) const { return _index >= o._index; }

private:
  const ICollection<T> *_collection;
  std::size_t _index;
};
''')
w('ICollection',S('CollectionIterator','IObject','PrimitiveTypes')+['cstddef'],[],'''
template <typename T> class ICollection : public virtual IObject {
public:
  using value_type = T;
  using const_iterator = CollectionIterator<T>;
  using iterator = CollectionIterator<T>;
  ~ICollection() noexcept override = default;
  virtual T *at(String8 name) const = 0;
  virtual T *at(size_t index) const = 0;
  virtual size_t size() const = 0;
  virtual const_iterator begin() const = 0;
  virtual const_iterator end() const = 0;
};
''')
def iface(path,bases,body,inc=(),fwd=(),ns='Smp',coll=None):
    name=path.split('/')[-1]
    incs=list(S('PrimitiveTypes'))
    for b in bases:
        incs.append('Smp/'+b.replace('::','/')+'.h')
    incs+=list(inc)
    if coll: incs+=S('ICollection')
    b='class %s%s {\npublic:\n  ~%s() noexcept%s;\n'%(name,(' : '+', '.join('public virtual ::Smp::'+x for x in bases)) if bases else '',name,' override = default' if bases else ' = default')
    if not bases: b=b.replace('  ~%s() noexcept = default'%name,'  virtual ~%s() noexcept = default'%name)
    b+='\n'.join('  '+l for l in body.strip('\n').split('\n') if l.strip())+'\n};\n'
    if coll: b+='using %s = ::Smp::ICollection<%s>;\n'%(coll,name)
    w(path,sorted(set(incs)),list(fwd),b,ns)
iface('IComponent',['IObject'],'''
virtual ComponentStateKind GetState() const = 0;
virtual void Publish(IPublication *receiver) = 0;
virtual void Configure(Services::ILogger *logger, Services::ILinkRegistry *linkRegistry = nullptr) = 0;
virtual void Connect(ISimulator *simulator) = 0;
virtual void Disconnect() = 0;
virtual IField *GetField(String8 fullName) const = 0;
virtual const FieldCollection *GetFields() const = 0;
virtual const Uuid &GetUuid() const = 0;
''',S('ComponentStateKind','IField','Uuid'),['IPublication','ISimulator','Smp::Services::ILogger','Smp::Services::ILinkRegistry'],coll='ComponentCollection')
iface('IModel',['IComponent'],'',coll='ModelCollection')
iface('IService',['IComponent'],'',coll='ServiceCollection')
iface('IContainer',['IObject'],'''
virtual const ComponentCollection *GetComponents() const = 0;
virtual IComponent *GetComponent(String8 name) const = 0;
virtual void AddComponent(IComponent *component) = 0;
virtual void DeleteComponent(IComponent *component) = 0;
virtual Int64 GetCount() const = 0;
virtual Int64 GetUpper() const = 0;
virtual Int64 GetLower() const = 0;
''',S('IComponent'),coll='ContainerCollection')
iface('IReference',['IObject'],'''
virtual const ComponentCollection *GetComponents() const = 0;
virtual IComponent *GetComponent(String8 name) const = 0;
virtual void AddComponent(IComponent *component) = 0;
virtual void RemoveComponent(IComponent *component) = 0;
virtual Int64 GetCount() const = 0;
virtual Int64 GetUpper() const = 0;
virtual Int64 GetLower() const = 0;
''',S('IComponent'),coll='ReferenceCollection')
iface('IComposite',['IObject'],'''
virtual const ContainerCollection *GetContainers() const = 0;
virtual IContainer *GetContainer(String8 name) const = 0;
''',S('IContainer'))
iface('IAggregate',['IObject'],'''
virtual const ReferenceCollection *GetReferences() const = 0;
virtual IReference *GetReference(String8 name) const = 0;
''',S('IReference'))
iface('ILinkingComponent',['IComponent'],'virtual void RemoveLinks(const IComponent *target) = 0;')
iface('IEntryPoint',['IObject'],'virtual void Execute() const = 0;',coll='EntryPointCollection')
iface('IEntryPointPublisher',['IObject'],'''
virtual const EntryPointCollection *GetEntryPoints() const = 0;
virtual IEntryPoint *GetEntryPoint(String8 name) const = 0;
''',S('IEntryPoint'))
iface('IEventSink',['IObject'],'''
virtual PrimitiveTypeKind GetEventArgType() const = 0;
virtual void Notify(IObject *sender, AnySimple value) = 0;
''',S('AnySimple'),coll='EventSinkCollection')
iface('IEventSource',['IObject'],'''
virtual void Subscribe(IEventSink *eventSink) = 0;
virtual void Unsubscribe(IEventSink *eventSink) = 0;
''',(),['IEventSink'],coll='EventSourceCollection')
iface('IEventConsumer',['IComponent'],'''
virtual const EventSinkCollection *GetEventSinks() const = 0;
virtual IEventSink *GetEventSink(String8 name) const = 0;
''',S('IEventSink'))
iface('IEventProvider',['IComponent'],'''
virtual const EventSourceCollection *GetEventSources() const = 0;
virtual IEventSource *GetEventSource(String8 name) const = 0;
''',S('IEventSource'))
iface('IStorageReader',[],'''
virtual void Restore(void *address, UInt64 size) = 0;
virtual String8 GetStateVectorFileName() const = 0;
virtual String8 GetStateVectorFilePath() const = 0;
''')
iface('IStorageWriter',[],'''
virtual void Store(void *address, UInt64 size) = 0;
virtual String8 GetStateVectorFileName() const = 0;
virtual String8 GetStateVectorFilePath() const = 0;
''')
iface('IPersist',['IObject'],'''
virtual void Restore(IStorageReader *reader) = 0;
virtual void Store(IStorageWriter *writer) = 0;
''',S('IStorageReader','IStorageWriter'),())
iface('IField',['IPersist'],'''
virtual ViewKind GetView() const = 0;
virtual Bool IsState() const = 0;
virtual Bool IsInput() const = 0;
virtual Bool IsOutput() const = 0;
virtual const Publication::IType *GetType() const = 0;
''',S('ViewKind'),['Smp::Publication::IType'],coll='FieldCollection')
iface('ISimpleField',['IField'],'''
virtual PrimitiveTypeKind GetPrimitiveTypeKind() const = 0;
virtual AnySimple GetValue() const = 0;
virtual void SetValue(AnySimple value) = 0;
''',S('AnySimple'))
iface('IForcibleField',['ISimpleField'],'''
virtual void Force(AnySimple value) = 0;
virtual void Unforce() = 0;
virtual Bool IsForced() = 0;
virtual void Freeze() = 0;
''')
iface('IDataflowField',['IField'],'''
virtual void Connect(IField *target) = 0;
virtual void Push() = 0;
''')
iface('IArrayField',['IField'],'''
virtual UInt64 GetSize() const = 0;
virtual IField *GetItem(UInt64 index) const = 0;
''')
iface('ISimpleArrayField',['IField'],'''
virtual UInt64 GetSize() const = 0;
virtual AnySimple GetValue(UInt64 index) const = 0;
virtual void SetValue(UInt64 index, AnySimple value) = 0;
virtual void GetValues(UInt64 length, AnySimpleArray values) const = 0;
virtual void SetValues(UInt64 length, AnySimpleArray values) = 0;
''',S('AnySimple','AnySimpleArray'))
iface('IStructureField',['IField'],'''
virtual const FieldCollection *GetFields() const = 0;
virtual IField *GetField(String8 name) const = 0;
''')
iface('IFailure',['IPersist'],'''
virtual void Fail() = 0;
virtual void Unfail() = 0;
virtual Bool IsFailed() const = 0;
''',coll='FailureCollection')
iface('IFallibleModel',['IModel'],'''
virtual Bool IsFailed() const = 0;
virtual const FailureCollection *GetFailures() const = 0;
virtual IFailure *GetFailure(String8 name) const = 0;
''',S('IFailure'))
iface('IParameter',['IObject'],'''
virtual Publication::IType *GetType() const = 0;
virtual Publication::ParameterDirectionKind GetDirection() const = 0;
''',S('Publication/ParameterDirectionKind'),['Smp::Publication::IType'],coll='ParameterCollection')
iface('IOperation',['IObject'],'''
virtual const ParameterCollection *GetParameters() const = 0;
virtual IParameter *GetParameter(String8 name) const = 0;
virtual IParameter *GetReturnParameter() const = 0;
virtual ViewKind GetView() const = 0;
virtual IRequest *CreateRequest() = 0;
virtual void Invoke(IRequest *request) = 0;
virtual void DeleteRequest(IRequest *request) = 0;
''',S('IParameter','ViewKind'),['IRequest'],coll='OperationCollection')
iface('IProperty',['IObject'],'''
virtual Publication::IType *GetType() const = 0;
virtual AccessKind GetAccess() const = 0;
virtual ViewKind GetView() const = 0;
virtual AnySimple GetValue() const = 0;
virtual void SetValue(AnySimple value) = 0;
''',S('AccessKind','AnySimple','ViewKind'),['Smp::Publication::IType'],coll='PropertyCollection')
iface('IRequest',[],'''
virtual String8 GetOperationName() const = 0;
virtual Int32 GetParameterCount() const = 0;
virtual Int32 GetParameterIndex(String8 parameterName) const = 0;
virtual void SetParameterValue(Int32 index, AnySimple value) = 0;
virtual AnySimple GetParameterValue(Int32 index) const = 0;
virtual void SetReturnValue(AnySimple value) = 0;
virtual AnySimple GetReturnValue() const = 0;
''',S('AnySimple'))
iface('IDynamicInvocation',['IComponent'],'''
virtual IRequest *CreateRequest(String8 operationName) = 0;
virtual void Invoke(IRequest *request) = 0;
virtual void DeleteRequest(IRequest *request) = 0;
virtual const PropertyCollection *GetProperties() const = 0;
virtual const OperationCollection *GetOperations() const = 0;
''',S('IOperation','IProperty'),['IRequest'])
iface('IFactory',['IObject'],'''
virtual Uuid GetUuid() const = 0;
virtual IComponent *CreateInstance(String8 name, String8 description, IComposite *parent) = 0;
virtual void DeleteInstance(IComponent *instance) = 0;
virtual String8 GetTypeName() const = 0;
''',S('Uuid'),['IComponent','IComposite'],coll='FactoryCollection')
prims=['Char8','Bool','Int8','Int16','Int32','Int64','UInt8','UInt16','UInt32','UInt64','Float32','Float64']
iface('IPublication',[],'''
virtual Publication::ITypeRegistry *GetTypeRegistry() const = 0;
'''+'\n'.join('virtual void PublishField(String8 name, String8 description, %s *address, ViewKind view = ViewKind::VK_All, Bool state = true, Bool input = false, Bool output = false) = 0;'%p for p in prims)+'''
virtual void PublishField(String8 name, String8 description, void *address, Uuid typeUuid, ViewKind view = ViewKind::VK_All, Bool state = true, Bool input = false, Bool output = false) = 0;
virtual void PublishField(IField *field) = 0;
virtual void PublishArray(String8 name, String8 description, Int64 count, void *address, PrimitiveTypeKind type, ViewKind view = ViewKind::VK_All, Bool state = true, Bool input = false, Bool output = false) = 0;
virtual IPublication *PublishArray(String8 name, String8 description, ViewKind view = ViewKind::VK_All, Bool state = true) = 0;
virtual IPublication *PublishStructure(String8 name, String8 description, ViewKind view = ViewKind::VK_All, Bool state = true) = 0;
virtual Publication::IPublishOperation *PublishOperation(String8 name, String8 description, ViewKind view = ViewKind::VK_None) = 0;
virtual void PublishProperty(String8 name, String8 description, Uuid typeUuid, AccessKind accessKind, ViewKind view = ViewKind::VK_None) = 0;
virtual IField *GetField(String8 fullName) const = 0;
virtual const FieldCollection *GetFields() const = 0;
virtual const PropertyCollection *GetProperties() const = 0;
virtual const OperationCollection *GetOperations() const = 0;
virtual IRequest *CreateRequest(String8 operationName) = 0;
virtual void DeleteRequest(IRequest *request) = 0;
virtual void Unpublish() = 0;
''',S('AccessKind','IField','IOperation','IProperty','Uuid','ViewKind'),['IRequest','Smp::Publication::ITypeRegistry','Smp::Publication::IPublishOperation'])
PN='Smp::Publication'
iface('Publication/IType',['IObject'],'''
virtual PrimitiveTypeKind GetPrimitiveTypeKind() const = 0;
virtual Uuid GetUuid() const = 0;
virtual void Publish(IPublication *receiver, String8 name, String8 description, void *address, ViewKind view = ViewKind::VK_All, Bool state = true, Bool input = false, Bool output = false) = 0;
''',S('Uuid','ViewKind'),['IPublication'],PN)
iface('Publication/IArrayType',['Publication::IType'],'''
virtual UInt64 GetSize() const = 0;
virtual const IType *GetItemType() const = 0;
''',(),(),PN)
iface('Publication/IEnumerationType',['Publication::IType'],'virtual void AddLiteral(String8 name, String8 description, Int32 value) = 0;',(),(),PN)
iface('Publication/IStructureType',['Publication::IType'],'virtual void AddField(String8 name, String8 description, Uuid uuid, Int64 offset, ViewKind view = ViewKind::VK_All, Bool state = true, Bool input = false, Bool output = false) = 0;',(),(),PN)
iface('Publication/IClassType',['Publication::IStructureType'],'',(),(),PN)
iface('Publication/IPublishOperation',[],'virtual void PublishParameter(String8 name, String8 description, Uuid typeUuid, ParameterDirectionKind direction = ParameterDirectionKind::PDK_In) = 0;',S('Publication/ParameterDirectionKind','Uuid'),(),PN)
iface('Publication/ITypeRegistry',[],'''
virtual IType *GetType(PrimitiveTypeKind type) const = 0;
virtual IType *GetType(Uuid typeUuid) const = 0;
virtual IType *AddFloatType(String8 name, String8 description, Uuid typeUuid, Float64 minimum, Float64 maximum, Bool minInclusive, Bool maxInclusive, String8 unit, PrimitiveTypeKind type = PrimitiveTypeKind::PTK_Float64) = 0;
virtual IType *AddIntegerType(String8 name, String8 description, Uuid typeUuid, Int64 minimum, Int64 maximum, String8 unit, PrimitiveTypeKind type = PrimitiveTypeKind::PTK_Int32) = 0;
virtual IEnumerationType *AddEnumerationType(String8 name, String8 description, Uuid typeUuid, Int16 memorySize) = 0;
virtual IArrayType *AddArrayType(String8 name, String8 description, Uuid typeUuid, Uuid itemTypeUuid, Int64 itemSize, Int64 arrayCount, Bool simpleArray = false) = 0;
virtual IType *AddStringType(String8 name, String8 description, Uuid typeUuid, Int64 length) = 0;
virtual IStructureType *AddStructureType(String8 name, String8 description, Uuid typeUuid) = 0;
virtual IClassType *AddClassType(String8 name, String8 description, Uuid typeUuid, Uuid baseClassUuid) = 0;
''',S('Uuid','Publication/IType','Publication/IEnumerationType','Publication/IArrayType','Publication/IStructureType','Publication/IClassType'),(),PN)
SN='Smp::Services'
w('Services/EventId',S('PrimitiveTypes'),[],'using EventId = ::Smp::Int64;',SN)
w('Services/LogMessageKind',S('PrimitiveTypes'),[],'using LogMessageKind = ::Smp::Int32;',SN)
evs=['LeaveConnecting','EnterInitialising','LeaveInitialising','EnterStandby','LeaveStandby','EnterExecuting','LeaveExecuting','EnterStoring','LeaveStoring','EnterRestoring','LeaveRestoring','EnterExiting','EnterAborting','EpochTimeChanged','MissionTimeChanged','EnterReconnecting','LeaveReconnecting','PreSimTimeChange','PostSimTimeChange']
iface('Services/IEventManager',['IService'],
 '\n'.join('static constexpr String8 SMP_%s = "SMP_%s";\nstatic constexpr EventId SMP_%sId = %d;'%(e,e,e,i+1) for i,e in enumerate(evs))+'''
virtual EventId QueryEventId(String8 eventName) = 0;
virtual void Subscribe(EventId event, const IEntryPoint *entryPoint) = 0;
virtual void Unsubscribe(EventId event, const IEntryPoint *entryPoint) = 0;
virtual void Emit(EventId event, Bool synchronous = true) = 0;
''',S('Services/EventId'),['IEntryPoint'],SN)
s=open(OUT+'/Services/IEventManager.h').read()
s=s.replace('  ~IEventManager','  static constexpr String8 SMP_EventManager = "XsmpEventManager";\n  ~IEventManager')
open(OUT+'/Services/IEventManager.h','w').write(s.replace('  static constexpr String8 SMP_EventManager = "XsmpEventManager";\n',''))
iface('Services/ILinkRegistry',['IService'],'''
virtual void AddLink(IComponent *source, const IComponent *target) = 0;
virtual UInt32 GetLinkCount(const IComponent *source, const IComponent *target) const = 0;
virtual Bool RemoveLink(IComponent *source, const IComponent *target) = 0;
virtual const ComponentCollection *GetLinkSources(const IComponent *target) const = 0;
virtual Bool CanRemove(const IComponent *target) = 0;
virtual void RemoveLinks(const IComponent *target) = 0;
''',(),(),SN)
iface('Services/ILogger',['IService'],'\n'.join('static constexpr String8 LMK_%sName = "%s";\nstatic constexpr LogMessageKind LMK_%s = %d;'%(e,e,e,i) for i,e in enumerate(['Information','Event','Warning','Error','Debug']))+'''
virtual LogMessageKind QueryLogMessageKind(String8 messageKindName) = 0;
virtual void Log(const IObject *sender, String8 message, LogMessageKind kind = 0) = 0;
''',S('Services/LogMessageKind'),(),SN)
iface('Services/IResolver',['IService'],'''
virtual IObject *ResolveAbsolute(String8 absolutePath) = 0;
virtual IObject *ResolveRelative(String8 relativePath, const IComponent *sender) = 0;
''',(),(),SN)
iface('Services/ITimeKeeper',['IService'],'''
virtual Duration GetSimulationTime() const = 0;
virtual DateTime GetEpochTime() const = 0;
virtual DateTime GetMissionStartTime() const = 0;
virtual Duration GetMissionTime() const = 0;
virtual DateTime GetZuluTime() const = 0;
virtual void SetSimulationTime(Duration simulationTime) = 0;
virtual void SetEpochTime(DateTime epochTime) = 0;
virtual void SetMissionStartTime(DateTime missionStart) = 0;
virtual void SetMissionTime(Duration missionTime) = 0;
''',(),(),SN)
iface('Services/IScheduler',['IService'],'''
virtual EventId AddImmediateEvent(const IEntryPoint *entryPoint) = 0;
virtual EventId AddSimulationTimeEvent(const IEntryPoint *entryPoint, Duration simulationTime, Duration cycleTime = 0, Int64 repeat = 0) = 0;
virtual EventId AddMissionTimeEvent(const IEntryPoint *entryPoint, Duration missionTime, Duration cycleTime = 0, Int64 repeat = 0) = 0;
virtual EventId AddEpochTimeEvent(const IEntryPoint *entryPoint, DateTime epochTime, Duration cycleTime = 0, Int64 repeat = 0) = 0;
virtual EventId AddZuluTimeEvent(const IEntryPoint *entryPoint, DateTime zuluTime, Duration cycleTime = 0, Int64 repeat = 0) = 0;
virtual void SetEventSimulationTime(EventId event, Duration simulationTime) = 0;
virtual void SetEventMissionTime(EventId event, Duration missionTime) = 0;
virtual void SetEventEpochTime(EventId event, DateTime epochTime) = 0;
virtual void SetEventZuluTime(EventId event, DateTime zuluTime) = 0;
virtual void SetEventCycleTime(EventId event, Duration cycleTime) = 0;
virtual void SetEventRepeat(EventId event, Int64 repeat) = 0;
virtual void RemoveEvent(EventId event) = 0;
virtual EventId GetCurrentEventId() const = 0;
virtual Duration GetNextScheduledEventTime() const = 0;
''',S('Services/EventId'),['IEntryPoint'],SN)
iface('ISimulator',['IComposite'],'''
static constexpr String8 SMP_SimulatorModels = "Models";
static constexpr String8 SMP_SimulatorServices = "Services";
virtual void Initialise() = 0;
virtual void Publish() = 0;
virtual void Configure() = 0;
virtual void Connect() = 0;
virtual void Run() = 0;
virtual void Hold(Bool immediate = false) = 0;
virtual void Store(String8 filename) = 0;
virtual void Restore(String8 filename) = 0;
virtual void Reconnect(IComponent *root) = 0;
virtual void Exit() = 0;
virtual void Abort() = 0;
virtual SimulatorStateKind GetState() const = 0;
virtual void AddInitEntryPoint(IEntryPoint *entryPoint) = 0;
virtual void AddModel(IModel *model) = 0;
virtual void AddService(IService *service) = 0;
virtual IService *GetService(String8 name) const = 0;
virtual Services::ILogger *GetLogger() const = 0;
virtual Services::ITimeKeeper *GetTimeKeeper() const = 0;
virtual Services::IScheduler *GetScheduler() const = 0;
virtual Services::IEventManager *GetEventManager() const = 0;
virtual Services::IResolver *GetResolver() const = 0;
virtual Services::ILinkRegistry *GetLinkRegistry() const = 0;
virtual void RegisterFactory(IFactory *componentFactory) = 0;
virtual IComponent *CreateInstance(Uuid uuid, String8 name, String8 description, IComposite *parent) = 0;
virtual IFactory *GetFactory(Uuid uuid) const = 0;
virtual const FactoryCollection *GetFactories() const = 0;
virtual Publication::ITypeRegistry *GetTypeRegistry() const = 0;
virtual void LoadLibrary(String8 libraryPath) = 0;
''',S('IFactory','SimulatorStateKind','Uuid','IEntryPoint','IModel','IService','IComponent','Services/ILogger','Services/ITimeKeeper','Services/IScheduler','Services/IEventManager','Services/IResolver','Services/ILinkRegistry','Publication/ITypeRegistry'),())

# ---------------------------------------------------------------- exceptions
w('Exception',S('PrimitiveTypes')+['exception'],['IObject'],'''
class Exception : public std::exception {
public:
  ~Exception() noexcept override = default;
  const char *what() const noexcept override = 0;
  virtual String8 GetName() const noexcept = 0;
  virtual String8 GetDescription() const noexcept = 0;
  virtual String8 GetMessage() const noexcept = 0;
  virtual const IObject *GetSender() const noexcept = 0;
};
''')
EX='''FieldAlreadyConnected:const IDataflowField* GetSource;const IField* GetTarget
InvalidTarget:const IDataflowField* GetSource;const IField* GetTarget
CannotStore:
CannotRestore:
InvalidObjectName:String8 GetInvalidName
ContainerFull:String8 GetContainerName;Int64 GetContainerSize
DuplicateName:String8 GetDuplicateName
NotContained:String8 GetContainerName;const IComponent* GetComponent
CannotDelete:String8 GetContainerName;const IComponent* GetComponent;Int64 GetLowerLimit
InvalidComponentState:ComponentStateKind GetInvalidState;ComponentStateKind GetExpectedState
InvalidObjectType:IObject* GetInvalidObject
NotReferenced:String8 GetReferenceName;const IComponent* GetComponent
ReferenceFull:String8 GetReferenceName;Int64 GetReferenceSize
CannotRemove:String8 GetReferenceName;const IComponent* GetComponent;Int64 GetLowerLimit
InvalidEventSink:const IEventSource* GetEventSource;const IEventSink* GetEventSink
EventSinkAlreadySubscribed:const IEventSource* GetEventSource;const IEventSink* GetEventSink
EventSinkNotSubscribed:const IEventSource* GetEventSource;const IEventSink* GetEventSink
InvalidOperationName:String8 GetOperationName
InvalidParameterCount:String8 GetOperationName;Int32 GetOperationParameters;Int32 GetRequestParameters
InvalidParameterType:String8 GetOperationName;String8 GetParameterName;PrimitiveTypeKind GetInvalidType;PrimitiveTypeKind GetExpectedType
InvalidArrayIndex:Int64 GetInvalidIndex;Int64 GetArraySize
InvalidFieldValue:AnySimple GetInvalidFieldValue
InvalidArrayValue:Int64 GetInvalidValueIndex;AnySimple GetInvalidValue
InvalidArraySize:Int64 GetArraySize;Int64 GetInvalidSize
Services/InvalidEventName:
Services/InvalidEventId:EventId GetInvalidEventId
Services/InvalidCycleTime:
Services/InvalidEventTime:
Services/EntryPointNotSubscribed:const IEntryPoint* GetEntryPoint;String8 GetEventName
Services/EntryPointAlreadySubscribed:const IEntryPoint* GetEntryPoint;String8 GetEventName
Services/InvalidSimulationTime:Duration GetCurrentTime;Duration GetProvidedTime;Duration GetMaximumTime
InvalidFieldName:String8 GetFieldName
Publication/TypeNotRegistered:Uuid GetUuid
InvalidParameterIndex:String8 GetOperationName;Int32 GetParameterIndex;Int32 GetParameterCount
VoidOperation:String8 GetOperationName
InvalidAnyType:PrimitiveTypeKind GetInvalidType;PrimitiveTypeKind GetExpectedType
InvalidReturnValue:String8 GetOperationName;AnySimple GetValue
InvalidParameterValue:String8 GetParameterName;AnySimple GetValue
InvalidFieldType:
DuplicateUuid:String8 GetOldName;String8 GetNewName
LibraryNotFound:String8 GetLibraryName
InvalidLibrary:String8 GetLibraryName
Publication/TypeAlreadyRegistered:String8 GetTypeName;const IType* GetType
Publication/DuplicateLiteral:String8 GetLiteralName;Int32 GetLiteralValue
Publication/InvalidPrimitiveType:String8 GetTypeName;PrimitiveTypeKind GetType
InvalidSimulatorState:SimulatorStateKind GetInvalidState'''
for l in EX.split('\n'):
    path,_,m=l.partition(':')
    name=path.split('/')[-1]
    ns='Smp'+('::'+path.split('/')[0] if '/' in path else '')
    inc=S('Exception'); fwd=[]
    body='class %s : public virtual ::Smp::Exception {\npublic:\n  ~%s() noexcept override = default;\n'%(name,name)
    for x in [y for y in m.split(';') if y]:
        t,_,n=x.rpartition(' ')
        body+='  virtual %s %s() const noexcept = 0;\n'%(t,n)
        b=t.replace('const ','').replace('*','').strip()
        if b in('AnySimple','Uuid','ComponentStateKind','SimulatorStateKind'): inc+=S(b)
        elif b=='EventId': inc+=S('Services/EventId')
        elif b=='IType': fwd.append('Smp::Publication::IType')
        elif b.startswith('I') and not b.startswith('Int'): fwd.append('Smp::'+b)
    body+='};'
    w(path,sorted(set(inc)),fwd,body,ns)

p=OUT+'/PrimitiveTypes.h'; t=open(p).read(); open(p,'w').write(t.replace('\n#endif','\n#include <Smp/Uuid.h>\n\n#endif'))
p=OUT+'/Uuid.h'; t=open(p).read(); open(p,'w').write(t.replace('#include <Smp/PrimitiveTypes.h>\n',''))
p=OUT+'/Services/ITimeKeeper.h'
