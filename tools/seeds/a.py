Q = "src/umpire/strategy/QuickPool.cpp"
AM = "src/umpire/util/AllocationMap.cpp"
RM = "src/umpire/ResourceManager.cpp"
BUGS = [
 dict(id="quick-merge-link", property="C01",
  needs="a chunk freed after its predecessor, whose successor is freed later, in a pool block split at least three ways",
  breaks="the chunk after a merged pair keeps pointing at the recycled chunk header, so a later free merges the wrong chunks and live memory is handed out twice",
  edits=[(Q, """    prev->next = chunk->next;

    if (prev->next)
      prev->next->prev = prev;
""", """    prev->next = chunk->next;
""")],
  demo=r'''
int main() {
  auto& rm = umpire::ResourceManager::getInstance();
  auto pool = rm.makeAllocator<umpire::strategy::QuickPool>("p", rm.getAllocator("HOST"), 4096, 4096);
  std::vector<char*> v;
  for (int i = 0; i < 8; ++i) v.push_back((char*)pool.allocate(64));
  pool.deallocate(v[0]); pool.deallocate(v[1]); // merged; v[2]'s back link matters now
  pool.deallocate(v[2]);
  // three neighbouring 64-byte pieces were freed: a 192-byte request fits in front of v[3]
  char* p = (char*)pool.allocate(192);
  CHECK(p == v[0]);
  for (int i = 3; i < 8; ++i) CHECK(p + 192 <= v[i] || p >= v[i] + 64);
  return 0;
}
'''),
 dict(id="find-one-past-end", property="C10",
  needs="a lookup of the address exactly one past the end of an allocation that no other allocation starts at",
  breaks="the one-past-the-end address is attributed to the allocation",
  edits=[(AM, "(static_cast<char*>(candidate->ptr) + candidate->size) > static_cast<char*>(ptr) ||", "(static_cast<char*>(candidate->ptr) + candidate->size) >= static_cast<char*>(ptr) ||")],
  demo=r'''
int main() {
  auto& rm = umpire::ResourceManager::getInstance();
  char* p = (char*)rm.getAllocator("HOST").allocate(40);
  CHECK(rm.hasAllocator(p + 39));
  CHECK(!rm.hasAllocator(p + 40));
  return 0;
}
'''),
 dict(id="map-size-stacked", property="C16",
  needs="two records registered at the same base address, one of which is then removed",
  breaks="the number of records is not reduced when a removed record uncovers an older one",
  edits=[(AM, """    if (iter->second->empty())
      m_map.removeLast();
  } else {""", """    if (iter->second->empty()) {
      m_map.removeLast();
      --m_size;
    }
  } else {"""), (AM, """  --m_size;

  return ret;""", """  return ret;""")],
  demo=r'''
int main() {
  umpire::util::AllocationMap m;
  int x[4];
  m.insert(&x[0], umpire::util::AllocationRecord{&x[0], 4, nullptr});
  m.insert(&x[0], umpire::util::AllocationRecord{&x[0], 8, nullptr});
  m.remove(&x[0]);
  CHECK(m.size() == 1);
  return 0;
}
'''),
 dict(id="quick-exact-fit", property="C30",
  needs="a request whose rounded size equals a free piece exactly",
  breaks="an exactly fitting free piece is not reused; the pool grows instead",
  edits=[(Q, "m_size_map.lower_bound(rounded_bytes)", "m_size_map.upper_bound(rounded_bytes)")],
  demo=r'''
int main() {
  auto& rm = umpire::ResourceManager::getInstance();
  auto pool = rm.makeAllocator<umpire::strategy::QuickPool>("p", rm.getAllocator("HOST"), 64, 64);
  void* a = pool.allocate(64); void* b = pool.allocate(64);
  auto was = pool.getActualSize();
  pool.deallocate(b);
  b = pool.allocate(64);
  CHECK(pool.getActualSize() == was);
  (void)a;
  return 0;
}
'''),
]
